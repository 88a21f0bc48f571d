//! C45 positioned I/O, C46 stream I/O.

use core::mem::MaybeUninit;
use core::ops::ControlFlow as Flow;
use harness::mapio::{In, Out, Script};
use harness::{ensure, ensure_eq, Facet, Outcome, Property, G};
use std::cell::Cell;
use tmp::io::{map, stream};

// ---------------------------------------------------------------------------
// Positioned writes

enum Back {
    Vec(Vec<u8>),
    Out(Out),
}

impl Back {
    fn w(&mut self) -> &mut dyn map::Write {
        match self {
            Back::Vec(v) => v,
            Back::Out(v) => v,
        }
    }

    fn content(&self) -> Vec<u8> {
        match self {
            Back::Vec(v) => v.clone(),
            Back::Out(v) => v.sink.out.borrow().clone(),
        }
    }

    fn failed(&self) -> u64 {
        match self {
            Back::Vec(_) => 0,
            Back::Out(v) => v.sink.failed.get(),
        }
    }
}

/// Iterator whose announced size is exact, counting what was taken.
struct Exact<'a> {
    data: &'a [u8],
    at: usize,
}

impl<'a> Iterator for Exact<'a> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        let v = self.data.get(self.at).copied();
        if v.is_some() {
            self.at += 1;
        }
        v
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.data.len() - self.at;
        (n, Some(n))
    }
}

impl<'a> ExactSizeIterator for Exact<'a> {}

fn set(m: &mut Vec<Option<u8>>, at: usize, v: &[u8]) {
    if m.len() < at + v.len() {
        m.resize(at + v.len(), None);
    }
    for (i, b) in v.iter().enumerate() {
        m[at + i] = Some(*b);
    }
}

/// Any order of writes, then commits.
fn writing(g: &mut G) -> Outcome {
    writing_sized(g, false)
}

fn writing_large(g: &mut G) -> Outcome {
    writing_sized(g, true)
}

/// Sizes around powers of two, up to 128 KiB.
fn large_size(g: &mut G) -> usize {
    let n = (1usize << g.size(8, 17)) + g.below(5);
    if g.bool() { n - 2 } else { g.size(0, n) }
}

fn writing_sized(g: &mut G, large: bool) -> Outcome {
    let initial = if g.bool() { g.bytes(20) } else { vec![] };
    let faults = g.chance(1, 3);
    let mut b = if faults || g.bool() {
        g.label("scripted backend");
        Back::Out(Out::new(Script::gen(g, faults), &initial))
    } else {
        g.label("vector");
        let mut v = initial.clone();
        if g.bool() {
            v.reserve(g.size(0, 100));
        } else {
            v.shrink_to_fit();
        }
        Back::Vec(v)
    };
    g.label_if(!initial.is_empty(), "existing content");
    let mut want = initial;
    let mut log = Vec::new();
    let mut ops = 0;
    let mut commits = 0;
    let mut fails = 0;

    // What was written since the last commit.
    let mut m: Vec<Option<u8>> = Vec::new();
    let hint = *g.pick(&[3u64, 8, 20]);
    while ops < (if large { 12 } else { 60 }) && g.draw(hint) != 0 {
        ops += 1;
        // Mostly continue at the end, sometimes rewrite or leave a hole.
        let start = match g.weighted(&[6, 2, 1]) {
            0 => m.len(),
            1 => g.size(0, m.len()),
            _ => m.len() + g.small(20),
        };
        let mut tries = 0;
        let op = g.weighted(&[4, 3, 2, 2, 3]);
        let data: Vec<u8> = match op {
            0 | 1 => {
                if large && g.bool() {
                    let n = large_size(g);
                    g.blob(n)
                } else if g.chance(1, 6) {
                    let n = g.size(0, 300);
                    g.blob(n)
                } else {
                    g.bytes(24)
                }
            },
            2 => vec![g.draw(256) as u8; if large { large_size(g) } else { g.small(40) }],
            3 => vec![0; if large { large_size(g) } else { g.small(40) }],
            _ => {
                let exp = if large { g.below(18) } else { g.below(8) };
                vec![0; start.next_multiple_of(1 << exp) - start]
            },
        };
        let exp = if op == 4 { if data.is_empty() { g.below(1 + start.trailing_zeros().min(8) as usize) as u8 } else { 0 } } else { 0 };
        let exp = if op == 4 && !data.is_empty() {
            // the exponent that asks for exactly this
            (0..18u8).find(|e| start.next_multiple_of(1 << *e) - start == data.len()).unwrap()
        } else {
            exp
        };
        if g.want_notes {
            log.push(format!("{}@{}+{}", ["write", "iter", "fill", "zero", "align"][op], start, data.len()));
        }
        loop {
            let before = b.failed();
            let mut idx = start;
            let mut it = Exact { data: &data, at: 0 };
            let r = match op {
                0 => b.w().write(&mut idx, &data),
                1 => b.w().write_iter(&mut idx, &mut it),
                2 => b.w().fill(&mut idx, data.len(), data.first().copied().unwrap_or(0)),
                3 => b.w().zero(&mut idx, data.len()),
                _ => b.w().align_exp2(&mut idx, exp),
            };
            let failed = b.failed() != before;
            match r {
                Flow::Continue(()) => {
                    ensure!(!failed, "success though the backend failed");
                    ensure_eq!(idx, start + data.len(), "position after {} bytes at {}", data.len(), start);
                    if op == 1 {
                        ensure_eq!(it.at, data.len(), "bytes taken from the iterator");
                    }
                    set(&mut m, start, &data);
                    break;
                },
                Flow::Break(e) => {
                    ensure!(failed, "refused by a working backend: {:?}", e);
                    ensure!(idx >= start && idx <= start + data.len(), "position {} after a failure within {}+{}", idx, start, data.len());
                    fails += 1;
                    tries += 1;
                    ensure!(tries < 50, "does not recover");
                    // Anything in the range may have been touched.
                    if m.len() < start + data.len() {
                        m.resize(start + data.len(), None);
                    }
                    for v in &mut m[start..start + data.len()] {
                        *v = None;
                    }
                },
            }
        }
        ensure_eq!(b.content(), want, "content before a commit");
        if g.chance(1, 5) {
            let ready = m.iter().take_while(|v| v.is_some()).count();
            let n = if g.bool() { ready } else { g.size(0, ready) };
            unsafe { b.w().commit(n) };
            want.extend(m[..n].iter().map(|v| v.unwrap()));
            ensure_eq!(b.content(), want, "content after a commit of {}", n);
            m.clear();
            commits += 1;
            if g.want_notes {
                log.push(format!("commit {}", n));
            }
        }
    }
    let ready = m.iter().take_while(|v| v.is_some()).count();
    unsafe { b.w().commit(ready) };
    want.extend(m[..ready].iter().map(|v| v.unwrap()));
    ensure_eq!(b.content(), want, "content after the final commit of {}", ready);
    g.label_if(commits > 1, "several commits");
    g.label_if(fails > 0, "backend failures");
    g.label_if(want.len() > 65536, "more than 65536 bytes");
    g.nontrivial_if(ops > 1 && want.len() > 1);
    g.note(|| log.join(" "));
    Ok(())
}

/// Backend for positions anywhere, with room for a few of them.
struct Window {
    base: usize,
    mem: Vec<MaybeUninit<u8>>,
    short: usize,
}

impl Window {
    fn range(&self, idx: usize, len: usize) -> Flow<Option<map::Error>, core::ops::Range<usize>> {
        if idx.checked_add(len).is_none() {
            return Flow::Break(Some(map::Error::Overflow));
        }
        if idx < self.base || idx - self.base >= self.mem.len() {
            return Flow::Break(Some(map::Error::Exceeded));
        }
        let at = idx - self.base;
        let n = len.min(self.short).min(self.mem.len() - at);
        Flow::Continue(at..at + n)
    }
}

impl map::Write for Window {
    unsafe fn commit(&mut self, _len: usize) {}

    fn map(&mut self, idx: usize, len: usize) -> Flow<Option<map::Error>, &mut [MaybeUninit<u8>]> {
        let r = self.range(idx, len)?;
        Flow::Continue(&mut self.mem[r])
    }
}

impl map::Read for Window {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<map::Error>, &[u8]> {
        let r = self.range(idx, len)?;
        // All of it is initialized.
        Flow::Continue(unsafe { core::mem::transmute::<&[MaybeUninit<u8>], &[u8]>(&self.mem[r]) })
    }
}

/// Operations at large positions.
fn windows(g: &mut G) -> Outcome {
    let size = g.size(1, 600);
    let top = g.size(8, usize::BITS as usize - 1);
    let base = match g.below(3) {
        0 => (1usize << top) - g.below(size.min(200)),
        1 => (g.uint(64) as usize).min(usize::MAX - size),
        _ => usize::MAX - size - g.below(10),
    };
    let short = *g.pick(&[1usize, 3, 50, 1000]);
    let mut w = Window { base, mem: vec![MaybeUninit::new(0xee); size], short };
    let mut m = vec![0xeeu8; size];
    let mut ops = 0;
    let mut log = Vec::new();
    while ops < 20 && g.draw(8) != 0 {
        ops += 1;
        let at = g.below(size);
        let start = base + at;
        let op = g.below(6);
        let mut idx = start;
        if op == 4 {
            let exp = match g.below(3) {
                0 => g.below(10),
                1 => top,
                _ => g.below(usize::BITS as usize),
            };
            let want = start.checked_next_multiple_of(1usize << exp);
            if g.want_notes {
                log.push(format!("align {} to 2^{}", start, exp));
            }
            let fill = want.map(|v| v - start);
            match map::Write::align_exp2(&mut w, &mut idx, exp as u8) {
                Flow::Continue(()) => {
                    ensure_eq!(Some(idx), want, "position {} aligned to 2^{}", start, exp);
                    ensure!(fill.unwrap() <= size - at, "padding beyond the window");
                    m[at..at + fill.unwrap()].fill(0);
                },
                Flow::Break(e) => {
                    match fill {
                        None => ensure_eq!(e, Some(map::Error::Overflow), "position {} cannot be aligned to 2^{}", start, exp),
                        Some(n) => {
                            ensure!(n > size - at, "alignment of {} to 2^{} refused: {:?}", start, exp, e);
                            ensure_eq!(e, Some(map::Error::Exceeded), "padding beyond the window");
                            m[at..].fill(0);
                        },
                    }
                },
            }
        } else {
            let n = g.small(size - at + 1).min(size - at);
            if g.want_notes {
                log.push(format!("operation {} at {} of {}", op, start, n));
            }
            let data = match op {
                0 | 1 => g.blob(n),
                2 => vec![g.draw(256) as u8; n],
                _ => vec![0; n],
            };
            let mut got = vec![0u8; n];
            let r = match op {
                0 => map::Write::write(&mut w, &mut idx, &data),
                1 => map::Write::write_iter(&mut w, &mut idx, &mut data.iter().copied()),
                2 => map::Write::fill(&mut w, &mut idx, n, data.first().copied().unwrap_or(0)),
                3 => map::Write::zero(&mut w, &mut idx, n),
                _ => map::Read::read(&w, &mut idx, &mut got),
            };
            ensure_eq!(r, Flow::Continue(()), "operation {} of {} bytes at {}", op, n, start);
            ensure_eq!(idx, start + n, "position after operation {} of {} bytes at {}", op, n, start);
            if op == 5 {
                ensure_eq!(got, m[at..at + n].to_vec(), "bytes read at {}", start);
            } else {
                m[at..at + n].copy_from_slice(&data);
            }
        }
        let have: Vec<u8> = w.mem.iter().map(|v| unsafe { v.assume_init() }).collect();
        ensure_eq!(have, m, "content of the window at {}", base);
    }
    g.nontrivial_if(ops > 1);
    g.label_if(base > u32::MAX as usize, "beyond 32 bits");
    g.note(|| format!("{} bytes at {}: {}", size, base, log.join(", ")));
    Ok(())
}

/// Positions that cannot exist.
fn writing_far(g: &mut G) -> Outcome {
    let initial = g.bytes(8);
    let mut v = initial.clone();
    let back = g.below(64);
    let start = usize::MAX - back;
    let n = back + 1 + g.below(64);
    let mut idx = start;
    let data = vec![1u8; n];
    let op = g.below(5);
    g.nontrivial_if(true);
    g.note(|| format!("operation {} of {} bytes at MAX-{}", op, n, back));
    let w: &mut dyn map::Write = &mut v;
    let r = match op {
        0 => w.write(&mut idx, &data),
        1 => w.write_iter(&mut idx, &mut data.iter().copied()),
        2 => w.fill(&mut idx, n, 7),
        3 => w.zero(&mut idx, n),
        _ => {
            let exp = g.size(7, 20) as u8;
            w.align_exp2(&mut idx, exp)
        },
    };
    ensure_eq!(r, Flow::Break(Some(map::Error::Overflow)), "operation beyond the address space");
    ensure_eq!(idx, start, "position after a refused operation");
    let r = w.map(start, n).map_continue(|_| ());
    ensure_eq!(r, Flow::Break(Some(map::Error::Overflow)), "map beyond the address space");
    ensure_eq!(v, initial, "content");
    Ok(())
}

/// Reads at any position.
fn reading(g: &mut G) -> Outcome {
    reading_sized(g, false)
}

fn reading_large(g: &mut G) -> Outcome {
    reading_sized(g, true)
}

fn reading_sized(g: &mut G, large: bool) -> Outcome {
    let data = if large {
        let n = large_size(g);
        g.blob(n)
    } else if g.chance(1, 4) {
        let n = g.size(0, 400);
        g.blob(n)
    } else {
        g.bytes(40)
    };
    let faults = g.chance(1, 4);
    let input = In::new(Script::gen(g, faults), &data);
    let exact: Box<[u8]> = data.clone().into_boxed_slice();
    let slice = g.bool();
    g.label(if slice { "slice" } else { "scripted backend" });
    let mut ops = 0;
    let mut log = Vec::new();
    while ops < 40 && g.draw(8) != 0 {
        ops += 1;
        let start = match g.weighted(&[6, 1, 1]) {
            0 => g.size(0, data.len()),
            1 => data.len() + g.below(4),
            _ => usize::MAX - g.below(8),
        };
        let n = if large { large_size(g) } else { g.small(60) };
        let uninit = g.bool();
        if g.want_notes {
            log.push(format!("{}+{}", start, n));
        }
        let mut tries = 0;
        loop {
            let before = input.failed.get();
            let mut idx = start;
            let mut buf = vec![0xcdu8; n + 2];
            let r = {
                let dst = &mut buf[1..n + 1];
                let dst_u: &mut [MaybeUninit<u8>] = unsafe { core::mem::transmute(&mut *dst) };
                match (slice, uninit) {
                    (true, true) => map::Read::read_uninit(&exact[..], &mut idx, dst_u),
                    (true, false) => map::Read::read(&exact[..], &mut idx, dst),
                    (false, true) => map::Read::read_uninit(&input, &mut idx, dst_u),
                    (false, false) => {
                        let d: &dyn map::Read = &input;
                        d.read(&mut idx, dst)
                    },
                }
            };
            ensure!(buf[0] == 0xcd && buf[n + 1] == 0xcd, "bytes next to the buffer written");
            let failed = input.failed.get() != before;
            let fits = n == 0 || start.checked_add(n).map(|e| e <= data.len()).unwrap_or(false);
            match r {
                Flow::Continue(()) => {
                    ensure!(!failed, "success though the backend failed");
                    ensure!(fits, "read of {} bytes at {} of {} succeeded", n, start, data.len());
                    ensure_eq!(idx, start + n, "position after the read");
                    ensure_eq!(&buf[1..n + 1], if n == 0 { &[][..] } else { &data[start..start + n] }, "bytes read at {}", start);
                    break;
                },
                Flow::Break(e) => {
                    if failed {
                        tries += 1;
                        ensure!(tries < 50, "does not recover");
                        continue;
                    }
                    ensure!(!fits, "read of {} bytes at {} of {} refused: {:?}", n, start, data.len(), e);
                    g.label("out of range");
                    if start.checked_add(n).is_none() {
                        ensure!(matches!(e, Some(map::Error::Overflow | map::Error::Exceeded)), "error of a read beyond the address space: {:?}", e);
                    } else {
                        ensure_eq!(e, Some(map::Error::Exceeded), "error of a read behind the end");
                    }
                    if slice {
                        ensure_eq!(idx, start, "position after a refused read");
                        ensure!(buf.iter().all(|v| *v == 0xcd), "refused read delivered data");
                    }
                    break;
                },
            }
        }
        if slice {
            let want = match start.checked_add(n) {
                None => Err(Some(map::Error::Overflow)),
                Some(e) if e > data.len() => Err(Some(map::Error::Exceeded)),
                Some(e) => Ok(&data[start..e]),
            };
            let got = match map::Read::map(&exact[..], start, n) {
                Flow::Continue(v) => Ok(v),
                Flow::Break(e) => Err(e),
            };
            ensure_eq!(got, want, "map of {}+{} of {}", start, n, data.len());
        }
    }
    g.nontrivial_if(ops > 1 && data.len() > 1);
    g.note(|| format!("{} bytes: {}", data.len(), log.join(" ")));
    Ok(())
}

// ---------------------------------------------------------------------------
// Streams

/// Stream with a buffer that fills up over time and offers any block size.
struct Source {
    data: Vec<u8>,
    pos: usize,
    avail: usize,
    blocks: Vec<usize>,
    calls: Cell<usize>,
}

impl stream::Read for Source {
    fn advance(&mut self, len: usize) {
        assert!(len <= self.avail - self.pos, "advanced behind the buffered data");
        self.pos += len;
    }

    fn map(&self, min: usize, max: Option<usize>) -> Flow<stream::More, &[u8]> {
        let have = &self.data[self.pos..self.avail];
        let call = self.calls.get();
        self.calls.set(call + 1);
        assert!(call < 3_000_000, "endless input");
        if min > have.len() {
            return Flow::Break(stream::More { min, max });
        }
        // The maximum is a hint.
        let n = min.saturating_add(self.blocks[call % self.blocks.len()]).min(have.len());
        Flow::Continue(&have[..n])
    }
}

/// Scans resume over interruptions and stop at the right byte.
fn scanning(g: &mut G) -> Outcome {
    scanning_sized(g, false)
}

fn scanning_large(g: &mut G) -> Outcome {
    scanning_sized(g, true)
}

fn scanning_sized(g: &mut G, large: bool) -> Outcome {
    let letters = g.size(2, 4);
    let n = if large { large_size(g) } else if g.chance(1, 5) { g.size(0, 200) } else { g.size(0, 30) };
    let data: Vec<u8> = if large {
        // long runs
        let mut v = vec![0; n];
        for _ in 0..g.small(6) {
            if n > 0 {
                let i = g.below(n);
                v[i] = g.below(letters) as u8;
            }
        }
        v
    } else {
        (0..n).map(|_| g.below(letters) as u8).collect()
    };
    let most = if large { 1 << 20 } else { 1000 };
    let mut blocks = g.list(5, |g| match g.below(3) {
        0 if large => *g.pick(&[100usize, 4096]),
        1 if large => large_size(g),
        0 => 0,
        1 => g.small(10),
        _ => most,
    });
    if blocks.is_empty() {
        blocks.push(most);
    }
    let mut s = Source { pos: 0, avail: g.size(0, n), data, blocks, calls: Cell::new(0) };
    let mut total = 0;
    let mut interrupted = 0;
    let mut log = Vec::new();
    g.label_if(s.blocks != [most], "varied blocks");
    while total < (if large { 6 } else { 60 }) && g.draw(10) != 0 {
        total += 1;
        let stop = g.below(letters + 1) as u8;
        let max = if g.bool() { None } else if large { Some(1 + large_size(g)) } else { Some(1 + g.small(30)) };
        let from = if g.chance(1, 6) && max.is_none() { g.small(3) } else { 0 };
        let dynamic = g.bool();
        let mut calls: Vec<(usize, u8)> = Vec::new();
        let mut at = from;
        let limit = max.unwrap_or(usize::MAX);
        let rest = &s.data[s.pos..].to_vec();
        // First byte that ends the scan, over all data that will ever come.
        let hit = (from..rest.len().min(limit)).find(|i| rest[*i] == stop);
        let end = match hit {
            Some(i) => Some((i, i + 1)),
            None if from.max(rest.len()) >= limit => Some((limit, limit)),
            None => None,
        };
        loop {
            let before = at;
            let r = {
                let f = |i: usize, v: u8| {
                    calls.push((i, v));
                    v != stop
                };
                if dynamic {
                    let d: &dyn stream::Read = &s;
                    d.map_while(&mut at, max, f)
                } else {
                    stream::read_map_while(&s, &mut at, max, f)
                }
            };
            match r {
                Flow::Continue(m) => {
                    let Some((stop_at, need)) = end else {
                        return Err(format!("scan for {} ended at {} without a reason", stop, at));
                    };
                    ensure_eq!(at, stop_at, "end of the scan for {} in {:?}", stop, &rest[..rest.len().min(300)]);
                    ensure!(m.len() >= need, "map of {} bytes for a scan that ended at {}", m.len(), at);
                    ensure!(m.len() <= limit, "map of {} bytes exceeds the limit {}", m.len(), limit);
                    ensure_eq!(m, &rest[..m.len()], "mapped bytes");
                    ensure!(m.len() <= s.avail - s.pos, "map exceeds the buffer");
                    let adv = if g.bool() { at } else { g.size(0, m.len()) };
                    s.pos += adv;
                    log.push(format!("{}..{}", stop, at));
                    break;
                },
                Flow::Break(more) => {
                    interrupted += 1;
                    let have = s.avail - s.pos;
                    ensure_eq!(more, stream::More { min: at + 1, max }, "what is missing");
                    ensure!(more.min > have, "asked for {} bytes while {} are there", more.min, have);
                    ensure!(at >= before && at >= have.min(limit) || at >= from, "scan did not cover the buffer");
                    ensure_eq!(at, have.max(from), "scanned part of {} buffered bytes", have);
                    if s.avail == s.data.len() {
                        ensure!(end.is_none(), "scan for {} in {:?} asked for more", stop, &rest[..rest.len().min(300)]);
                        log.push(format!("{}..end", stop));
                        break;
                    }
                    s.avail += 1 + g.below(s.data.len() - s.avail);
                },
            }
        }
        // Every byte was judged once, in order, up to the end of the scan.
        let mut last = at;
        if hit.is_some() && end.map(|e| e.0) == Some(at) {
            last += 1;
        }
        let want: Vec<(usize, u8)> = (from..last).map(|i| (i, rest[i])).collect();
        ensure!(calls == want, "{} bytes judged, expected {}: {:?}", calls.len(), want.len(), &calls[..calls.len().min(50)]);
    }
    g.label_if(interrupted > 0, "interrupted");
    g.label_if(total > 2, "several scans");
    g.nontrivial_if(total > 0 && interrupted > 0);
    g.note(|| format!("{} bytes, scans {}", s.data.len(), log.join(" ")));
    Ok(())
}

fn extreme(g: &mut G) -> Option<usize> {
    match g.weighted(&[3, 3, 1]) {
        0 => None,
        1 => Some(g.small(40)),
        _ => Some(usize::MAX - g.below(3)),
    }
}

/// Slices as streams.
fn slices(g: &mut G) -> Outcome {
    slices_sized(g, false)
}

fn slices_large(g: &mut G) -> Outcome {
    slices_sized(g, true)
}

fn slices_sized(g: &mut G, large: bool) -> Outcome {
    let data = if large {
        let n = large_size(g);
        g.blob(n)
    } else {
        g.bytes(60)
    };
    let mut r: &[u8] = &data;
    let mut pos = 0;
    let mut ops = 0;
    let mut log = Vec::new();
    while ops < 60 && g.draw(12) != 0 {
        ops += 1;
        let left = data.len() - pos;
        if g.chance(1, 3) {
            let n = g.size(0, left);
            stream::Read::advance(&mut r, n);
            pos += n;
            log.push(format!("advance {}", n));
            continue;
        }
        let min = match g.weighted(&[6, 1, 1]) {
            0 => g.size(0, left),
            1 => left + 1 + g.small(5),
            _ => usize::MAX - g.below(2),
        };
        let max = extreme(g);
        log.push(format!("map {} {:?}", min, max));
        match stream::Read::map(&r, min, max) {
            Flow::Continue(m) => {
                ensure!(min <= left, "map of {} with {} left succeeded", min, left);
                ensure!(m.len() >= min, "map of {} bytes, {} requested", m.len(), min);
                ensure!(m.len() <= left && m == &data[pos..pos + m.len()], "mapped bytes at {}", pos);
            },
            Flow::Break(v) => {
                ensure!(min > left, "map of {} with {} left refused", min, left);
                ensure_eq!(v.min, min, "minimum that is missing");
                ensure_eq!(v.max, max, "maximum that is missing");
                g.label("refused");
            },
        }
    }
    // The rest is still there.
    let rest = stream::Read::map(&r, 0, None).continue_value();
    ensure_eq!(rest, Some(&data[pos..]), "rest of the stream");
    g.nontrivial_if(ops > 2 && data.len() > 2);
    g.note(|| format!("{} bytes: {}", data.len(), log.join(", ")));
    Ok(())
}

/// Vectors as output streams.
fn vectors(g: &mut G) -> Outcome {
    vectors_sized(g, false)
}

fn vectors_large(g: &mut G) -> Outcome {
    vectors_sized(g, true)
}

fn vectors_sized(g: &mut G, large: bool) -> Outcome {
    let initial = g.bytes(20);
    let mut v = initial.clone();
    if g.bool() {
        v.shrink_to_fit();
    }
    let mut want = initial;
    // Initialized, not committed.
    let mut pending: Vec<u8> = Vec::new();
    let mut ops = 0;
    let mut log = Vec::new();
    while ops < (if large { 15 } else { 50 }) && g.draw(12) != 0 {
        ops += 1;
        let op = g.weighted(&[4, 3, 3, 3]);
        log.push(["map", "commit", "write", "unchecked"][op]);
        match op {
            0 => {
                let min = if large { large_size(g) } else { g.small(60) };
                let max = extreme(g);
                g.label_if(max.map(|m| m < min).unwrap_or(false), "maximum below minimum");
                g.label_if(max.map(|m| m as u64 > 1 << 40).unwrap_or(false), "absurd maximum");
                let m = match stream::Write::map(&mut v, min, max) {
                    Flow::Continue(m) => m,
                    Flow::Break(e) => return Err(format!("vector ran out of space: {:?}", e)),
                };
                ensure!(m.len() >= min, "map of {} bytes, {} requested", m.len(), min);
                // Earlier content is retained.
                let keep = pending.len().min(m.len());
                let seen: Vec<u8> = m[..keep].iter().map(|b| unsafe { b.assume_init() }).collect();
                ensure_eq!(seen, pending[..keep].to_vec(), "bytes written before");
                let n = if large { m.len() - g.below(3).min(m.len()) } else { g.size(0, m.len().min(80)) };
                let from = g.size(0, n.min(pending.len()));
                for i in from..n {
                    let b = (i * 7 + ops * 13) as u8;
                    m[i].write(b);
                    if i < pending.len() {
                        pending[i] = b;
                    } else {
                        pending.push(b);
                    }
                }
            },
            1 => {
                let n = g.size(0, pending.len());
                unsafe { stream::Write::commit(&mut v, n) };
                want.extend(pending.drain(..n));
            },
            2 => {
                let d = if large {
                    let n = large_size(g);
                    g.blob(n)
                } else {
                    g.bytes(30)
                };
                let r = if g.bool() {
                    stream::Write::write(&mut v, &d)
                } else {
                    let w: &mut dyn stream::Write = &mut v;
                    w.write(&d)
                };
                ensure_eq!(r, Flow::Continue(()), "write to a vector");
                want.extend(&d);
                // The written bytes replaced the pending ones.
                pending.drain(..d.len().min(pending.len()));
            },
            _ => {
                let n = g.size(0, pending.len());
                let m = match unsafe { stream::Write::map_unchecked(&mut v, n) } {
                    Flow::Continue(m) => m,
                    Flow::Break(e) => return Err(format!("vector ran out of space: {:?}", e)),
                };
                ensure_eq!(m, &pending[..n], "initialized bytes");
                if n > 0 && g.bool() {
                    let i = g.below(n);
                    m[i] = !m[i];
                    pending[i] = !pending[i];
                }
            },
        }
        ensure_eq!(v, want, "committed bytes");
    }
    g.nontrivial_if(ops > 2);
    g.note(|| log.join(" "));
    Ok(())
}

/// Output of limited room.
struct Room {
    out: Vec<u8>,
    buf: Vec<MaybeUninit<u8>>,
    more: usize,
}

impl stream::Write for Room {
    unsafe fn commit(&mut self, len: usize) {
        let v: Vec<u8> = self.buf.drain(..len).map(|v| unsafe { v.assume_init() }).collect();
        self.out.extend(v);
    }

    fn map(&mut self, min: usize, max: Option<usize>) -> Flow<stream::More, &mut [MaybeUninit<u8>]> {
        if min > self.buf.len() {
            return Flow::Break(stream::More { min, max });
        }
        let n = min.saturating_add(self.more).min(self.buf.len());
        Flow::Continue(&mut self.buf[..n])
    }
}

fn rooms(g: &mut G) -> Outcome {
    let mut r = Room { out: vec![], buf: vec![MaybeUninit::new(0xee); g.size(0, 40)], more: *g.pick(&[0usize, 1, 5, 1000]) };
    let mut want: Vec<u8> = vec![];
    let mut ops = 0;
    let mut refused = 0;
    while ops < 40 && g.draw(12) != 0 {
        ops += 1;
        let d = g.bytes(20);
        let had = r.buf.len();
        let res = if g.bool() {
            stream::Write::write(&mut r, &d)
        } else {
            let w: &mut dyn stream::Write = &mut r;
            w.write(&d)
        };
        if d.len() <= had {
            ensure_eq!(res, Flow::Continue(()), "write of {} into {}", d.len(), had);
            want.extend(&d);
            ensure_eq!(r.buf.len(), had - d.len(), "room left");
        } else {
            refused += 1;
            ensure_eq!(res, Flow::Break(stream::More { min: d.len(), max: Some(d.len()) }), "write of {} into {}", d.len(), had);
            ensure_eq!(r.buf.len(), had, "room left");
        }
        ensure_eq!(r.out, want, "committed bytes");
        let m = g.size(0, 30);
        match unsafe { stream::Write::map_unchecked(&mut r, m) } {
            Flow::Continue(v) => ensure_eq!(v.len(), m, "length of an initialized map"),
            Flow::Break(e) => ensure_eq!(e.min, m, "room that is missing"),
        }
        if g.chance(1, 3) {
            let n = g.size(0, 30);
            r.buf.extend(std::iter::repeat(MaybeUninit::new(0xee)).take(n));
        }
    }
    g.label_if(refused > 0, "refused");
    g.nontrivial_if(ops > 1);
    g.note(|| format!("{} writes, {} refused, {} bytes", ops, refused, want.len()));
    Ok(())
}

fn main() {
    harness::main(vec![
        Property {
            id: "C45",
            facets: vec![
                Facet::new("writes", 800_000, 8_000_000, writing, "two or more operations and two or more bytes"),
                Facet::new("large writes", 30_000, 300_000, writing_large, "two or more operations and two or more bytes").shrinks(3000),
                Facet::new("large reads", 30_000, 300_000, reading_large, "two or more reads of non-empty data").shrinks(3000),
                Facet::new("windows", 400_000, 4_000_000, windows, "two or more operations"),
                Facet::new("far", 50_000, 200_000, writing_far, "every case"),
                Facet::new("reads", 800_000, 8_000_000, reading, "two or more reads of non-empty data"),
            ],
            assumptions: vec![
                "only bytes that were written since the last commit are committed",
                "backends hand out at least one byte for a non-empty request, as the interface demands",
                "scripted backends consult a script for the block size and failures of each call",
            ],
        },
        Property {
            id: "C46",
            facets: vec![
                Facet::new("scans", 800_000, 8_000_000, scanning, "a scan was interrupted"),
                Facet::new("slices", 800_000, 6_000_000, slices, "three or more operations"),
                Facet::new("vectors", 800_000, 8_000_000, vectors, "three or more operations"),
                Facet::new("large scans", 30_000, 300_000, scanning_large, "a scan was interrupted").shrinks(3000),
                Facet::new("large slices", 30_000, 300_000, slices_large, "three or more operations").shrinks(3000),
                Facet::new("large vectors", 20_000, 200_000, vectors_large, "three or more operations").shrinks(3000),
                Facet::new("rooms", 100_000, 1_000_000, rooms, "two or more writes"),
            ],
            assumptions: vec!["scans start below their limit", "advances stay within the buffered data"],
        },
    ])
}
