//! Random sources whose every answer is chosen by the explorer.
use rmath::rand::{Iter, IterSource, RandErrKind, RandError, Result, Seed, Source};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tail {
    /// keep answering with the same word
    Const(u32),
    /// a fixed, documented word sequence (xorshift64*)
    Stream(u64),
    /// every further draw fails
    Fail,
}

#[derive(Clone)]
pub struct Script {
    /// None = the draw fails
    pub words: Vec<Option<u32>>,
    pub pos: usize,
    pub tail: Tail,
    st: u64,
    /// answers given so far, shared with clones
    pub log: Rc<RefCell<Vec<Option<u32>>>>,
}

impl Script {
    pub fn new(words: Vec<Option<u32>>, tail: Tail) -> Script {
        let st = if let Tail::Stream(s) = tail { s.wrapping_mul(2685821657736338717).wrapping_add(0x9E3779B97F4A7C15) | 1 } else { 1 };
        Script { words, pos: 0, tail, st, log: Rc::new(RefCell::new(vec![])) }
    }
    pub fn stream(seed: u64) -> Script { Script::new(vec![], Tail::Stream(seed)) }
    pub fn words(w: &[u32], tail: Tail) -> Script { Script::new(w.iter().map(|&x| Some(x)).collect(), tail) }
    pub fn draws(&self) -> usize { self.log.borrow().len() }
    pub fn log(&self) -> Vec<Option<u32>> { self.log.borrow().clone() }
    /// all draws are successful
    pub fn logged(&self) -> Vec<u32> { self.log.borrow().iter().map(|x| x.unwrap_or(0)).collect() }
    fn next_word(&mut self) -> Option<u32> {
        let r = if self.pos < self.words.len() {
            let r = self.words[self.pos];
            self.pos += 1;
            r
        } else {
            match self.tail {
                Tail::Const(x) => Some(x),
                Tail::Fail => None,
                Tail::Stream(_) => {
                    self.st ^= self.st >> 12;
                    self.st ^= self.st << 25;
                    self.st ^= self.st >> 27;
                    Some((self.st.wrapping_mul(2685821657736338717) >> 32) as u32)
                }
            }
        };
        if self.log.borrow().len() > 50_000_000 { panic!("random source drawn more than 5e7 times") }
        self.log.borrow_mut().push(r);
        r
    }
}
impl Source<u32> for Script {
    fn gen(&mut self) -> Result<u32> {
        self.next_word().ok_or_else(|| RandError::new(RandErrKind::InnerErr, "scripted failure"))
    }
    fn reset<Sd: Seed<u32>>(&mut self, _sd: &Sd) -> Result<()> { Ok(()) }
}
impl IterSource<u32> for Script {
    fn iter_mut(&mut self) -> Iter<'_, Self, u32> { Iter::new(self) }
}

/// A source whose failing draws are chosen by the explorer; clones share the state.
#[derive(Clone)]
pub struct Faulty(Rc<RefCell<Fs>>);
struct Fs { idx: usize, fails: Vec<bool>, from: Option<usize>, st: u64, log: Vec<Option<u32>> }
impl Faulty {
    pub fn new(seed: u64) -> Faulty { Faulty(Rc::new(RefCell::new(Fs { idx: 0, fails: vec![], from: None, st: seed.wrapping_mul(2685821657736338717) | 1, log: vec![] }))) }
    /// from now on the draws marked in `fails`, and all draws from number `from` on, fail
    pub fn arm(&self, fails: Vec<bool>, from: Option<usize>) {
        let mut s = self.0.borrow_mut();
        s.idx = 0;
        s.fails = fails;
        s.from = from;
        s.log.clear();
    }
    pub fn heal(&self) { self.arm(vec![], None) }
    /// answers since the last `arm`
    pub fn log(&self) -> Vec<Option<u32>> { self.0.borrow().log.clone() }
    pub fn good(&self) -> Vec<u32> { self.0.borrow().log.iter().filter_map(|x| *x).collect() }
    pub fn draws(&self) -> usize { self.0.borrow().log.len() }
}
impl Source<u32> for Faulty {
    fn gen(&mut self) -> Result<u32> {
        let mut s = self.0.borrow_mut();
        let i = s.idx;
        s.idx += 1;
        if s.log.len() > 4_000_000 { drop(s); panic!("random source drawn more than 4e6 times") }
        if s.fails.get(i).copied().unwrap_or(false) || s.from.map_or(false, |f| i >= f) {
            s.log.push(None);
            return Err(RandError::new(RandErrKind::InnerErr, "scripted failure"));
        }
        s.st ^= s.st >> 12;
        s.st ^= s.st << 25;
        s.st ^= s.st >> 27;
        let w = (s.st.wrapping_mul(2685821657736338717) >> 32) as u32;
        s.log.push(Some(w));
        Ok(w)
    }
    fn reset<Sd: Seed<u32>>(&mut self, _sd: &Sd) -> Result<()> { Ok(()) }
}
impl IterSource<u32> for Faulty {
    fn iter_mut(&mut self) -> Iter<'_, Self, u32> { Iter::new(self) }
}
