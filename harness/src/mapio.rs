//! Scripted backends of the positioned I/O interface.

use crate::G;
use core::mem::MaybeUninit;
use core::ops::ControlFlow as Flow;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use tmp::io::map::{Error, Read, Write};

/// How many bytes a backend hands out.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Block {
    Exact,
    /// at most so many
    Short(usize),
    /// so many beyond the request
    Long(usize),
}

/// Script of block sizes (cyclic) and of failing calls.
#[derive(Clone, Debug)]
pub struct Script {
    pub blocks: Vec<Block>,
    /// Sorted numbers of calls that fail, and how.
    pub fails: Vec<(u64, Option<Error>)>,
}

impl Script {
    pub fn plain() -> Self {
        Script { blocks: vec![Block::Exact], fails: vec![] }
    }

    pub fn gen(g: &mut G, faults: bool) -> Self {
        let mut blocks = g.list(6, |g| match g.weighted(&[6, 9, 6, 1, 1]) {
            0 => Block::Exact,
            1 => Block::Short(1 + g.small(8)),
            2 => Block::Long(1 + g.small(8)),
            3 => Block::Short(*g.pick(&[16usize, 100, 255, 256, 4096])),
            _ => Block::Long(*g.pick(&[16usize, 100, 255, 256, 4096])),
        });
        if blocks.is_empty() {
            blocks.push(Block::Exact);
        }
        let mut fails = vec![];
        if faults {
            let mut at = 0;
            fails = g.list(8, |g| {
                at += 1 + g.small(12) as u64;
                let e = match g.weighted(&[3, 1, 1]) {
                    0 => Some(Error::Exceeded),
                    1 => Some(Error::Overflow),
                    _ => None,
                };
                (at, e)
            });
        }
        Script { blocks, fails }
    }

    fn at(&self, call: u64) -> Result<Block, Option<Error>> {
        if let Some(f) = self.fails.iter().find(|f| f.0 == call) {
            return Err(f.1);
        }
        Ok(self.blocks[call as usize % self.blocks.len()])
    }

    /// How many of `len` requested bytes to hand out.
    fn amount(block: Block, len: usize) -> usize {
        match block {
            Block::Exact => len,
            Block::Short(n) => len.min(n),
            Block::Long(n) => len.saturating_add(n),
        }
    }
}

const FUEL: u64 = 30_000_000;
pub const POISON: u8 = 0xab;

/// What a scripted output saw.
#[derive(Debug, Default)]
pub struct Sink {
    /// Everything committed.
    pub out: RefCell<Vec<u8>>,
    pub commits: Cell<u64>,
    pub calls: Cell<u64>,
    pub failed: Cell<u64>,
}

pub struct Out {
    pub sink: Rc<Sink>,
    script: Script,
    scratch: Vec<MaybeUninit<u8>>,
}

impl Out {
    pub fn new(script: Script, initial: &[u8]) -> Self {
        let sink = Rc::new(Sink::default());
        sink.out.borrow_mut().extend_from_slice(initial);
        Out { sink, script, scratch: vec![] }
    }
}

impl Write for Out {
    unsafe fn commit(&mut self, len: usize) {
        self.sink.commits.set(self.sink.commits.get() + 1);
        if len > self.scratch.len() {
            panic!("commit of {} bytes, only {} were mapped", len, self.scratch.len());
        }
        let mut out = self.sink.out.borrow_mut();
        // All scratch memory starts out as poison.
        out.extend(self.scratch[..len].iter().map(|v| unsafe { v.assume_init() }));
        self.scratch.clear();
    }

    fn map(&mut self, idx: usize, len: usize) -> Flow<Option<Error>, &mut [MaybeUninit<u8>]> {
        let call = self.sink.calls.get();
        self.sink.calls.set(call + 1);
        if call > FUEL {
            panic!("endless output");
        }
        let block = match self.script.at(call) {
            Ok(v) => v,
            Err(e) => {
                self.sink.failed.set(self.sink.failed.get() + 1);
                return Flow::Break(e);
            },
        };
        let Some(end) = idx.checked_add(Script::amount(block, len)) else {
            return Flow::Break(Some(Error::Overflow));
        };
        if end > 1 << 28 {
            return Flow::Break(Some(Error::Exceeded));
        }
        if self.scratch.len() < end {
            self.scratch.resize(end, MaybeUninit::new(POISON));
        }
        Flow::Continue(&mut self.scratch[idx..end])
    }
}

pub struct In {
    pub data: Vec<u8>,
    script: Script,
    pub calls: Rc<Cell<u64>>,
    pub failed: Rc<Cell<u64>>,
}

impl In {
    pub fn new(script: Script, data: &[u8]) -> Self {
        // Exact capacity, so that overruns leave the allocation.
        In { data: data.to_vec().into_boxed_slice().into_vec(), script, calls: Rc::default(), failed: Rc::default() }
    }
}

impl Read for In {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<Error>, &[u8]> {
        let call = self.calls.get();
        self.calls.set(call + 1);
        if call > FUEL {
            panic!("endless input");
        }
        let block = match self.script.at(call) {
            Ok(v) => v,
            Err(e) => {
                self.failed.set(self.failed.get() + 1);
                return Flow::Break(e);
            },
        };
        let Some(end) = idx.checked_add(len) else {
            return Flow::Break(Some(Error::Overflow));
        };
        match block {
            Block::Short(n) => {
                // hands out what there is, fails behind the end
                if idx >= self.data.len() {
                    return Flow::Break(Some(Error::Exceeded));
                }
                let end = end.min(idx + n.max(1)).min(self.data.len());
                Flow::Continue(&self.data[idx..end])
            },
            Block::Exact | Block::Long(_) => {
                if end > self.data.len() {
                    return Flow::Break(Some(Error::Exceeded));
                }
                let end = Script::amount(block, len).saturating_add(idx).min(self.data.len());
                Flow::Continue(&self.data[idx..end])
            },
        }
    }
}
