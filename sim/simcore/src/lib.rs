//! Deterministic simulator: scheduler, clock, decision tapes. One simulation = one OS thread.
//!
//! Everything that runs "concurrently" (tokio tasks, application threads, clients) is a coroutine. Control moves only at
//! explicit scheduling points, and who continues is decided by a recorded tape.

pub mod alloc;
pub mod entropy;
pub mod fd;
pub mod fs;
pub mod net;
pub mod rng;

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use rng::Rng;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub type Tid = usize;

pub const STACK_SIZE: usize = 2 * 1024 * 1024;

/// The decision streams of a run.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stream {
    /// who runs next
    Sched = 0,
    /// how bytes are split, spurious readiness, etc.
    Net = 1,
    /// everything else (early timers, concurrent file system activity, ...)
    Misc = 2,
}
pub const N_STREAMS: usize = 3;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Violation {
    /// class, e.g. "out.mismatch"
    pub kind: String,
    pub msg: String,
}

#[derive(Clone, Debug)]
pub enum Strategy {
    /// switch with probability p/256 at each scheduling point
    Random { p: u32 },
    /// random priorities with occasional changes (change probability 1/n)
    Pct { n: u32 },
    /// switch only when the current one blocks
    RunToBlock,
    /// like Random, but some coroutines are slow: they get to run with probability 1/w only while others can
    Slow { p: u32, w: u32 },
}

#[derive(Clone, Debug)]
pub struct Knobs {
    pub strategy: Strategy,
    /// how many tasks may be inside a poll at the same time (runtime worker threads); 0 = unlimited
    pub workers: usize,
    /// probability (of 256) for firing the next timer although something is runnable
    pub early_timer: u32,
    /// read fragmentation: 0 whole, 1 sometimes split, 2 tiny
    pub read_frag: u32,
    /// write acceptance: 0 whole, 1 sometimes short, 2 tiny
    pub write_frag: u32,
    /// fragmentation of client writes: 0 whole, 1 sometimes split, 2 tiny
    pub client_frag: u32,
    /// probability (of 256) for a spurious Pending (with wake-up) in socket polls
    pub spurious: u32,
    /// probability (of 256) for a spurious wake-up of a parked task at a scheduling decision
    pub spurious_wake: u32,
    pub cap_c2s: usize,
    pub cap_s2c: usize,
    pub max_steps: u64,
}

impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            strategy: Strategy::Random { p: 64 },
            workers: 0,
            early_timer: 0,
            read_frag: 0,
            write_frag: 0,
            client_frag: 0,
            spurious: 0,
            spurious_wake: 0,
            cap_c2s: 65536,
            cap_s2c: 65536,
            max_steps: 2_000_000,
        }
    }
}

pub struct Tape {
    replay: Option<Vec<u32>>,
    pos: usize,
    rng: Rng,
    pub rec: Vec<u32>,
}

impl Tape {
    fn choose(&mut self, n: u32, gen: impl FnOnce(&mut Rng) -> u32) -> u32 {
        let v = match self.replay {
            Some(ref t) => {
                let v = t.get(self.pos).copied().unwrap_or(0) % n;
                self.pos += 1;
                v
            }
            None => gen(&mut self.rng),
        };
        self.rec.push(v);
        v
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Block {
    /// waiting for a lock
    Lock,
    /// a task (or block_on) waiting to be woken
    Parked,
    /// waiting for a free runtime worker
    Slot,
    /// a client or thread waiting for I/O
    Io,
    /// sleeping
    Timer,
    /// waiting until nothing else can happen
    Quiesce,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum State {
    Runnable,
    Blocked(Block),
    Done,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// part of the harness: clients, director
    Actor,
    /// a thread of the simulated program
    Thread,
    /// a runtime task
    Task,
}

struct Coro {
    co: Option<Coroutine<(), (), (), DefaultStack>>,
    yielder: *const Yielder<(), ()>,
    state: State,
    kind: Kind,
    name: String,
    woken: bool,
    in_poll: bool,
    domain: u8,
    prio: u64,
    blocked_since: u64,
    /// socket last read from / accepted by this coroutine (used by oracles to attribute events)
    pub last_sock: Option<usize>,
    pub last_accept: Option<usize>,
    pub last_write: Option<usize>,
    pub catch_panics: bool,
}

pub enum TimerTarget {
    Tid(Tid),
    Waker(Waker),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub counts: BTreeMap<&'static str, u64>,
}

pub struct Sim {
    pub run_id: u64,
    pub knobs: Knobs,
    tapes: Vec<Tape>,
    coros: Vec<Coro>,
    cur: Option<Tid>,
    next: Option<Tid>,
    now: u64,
    timers: BTreeMap<(u64, u64), TimerTarget>,
    seq: u64,
    steps: u64,
    hash: u64,
    slots_used: usize,
    /// the run has taken long: no more faults and delays, so that it comes to an end
    pub relaxed: bool,
    idle_count: u64,
    ran_since_idle: bool,
    ending: bool,
    outcome: Option<Violation>,
    /// kinds of violations that end the run
    hard: Box<dyn Fn(&str) -> bool>,
    soft: BTreeMap<String, u64>,
    pub stats: Stats,
    pub net: net::Net,
    pub fs: fs::Fs,
    pub fd60: fd::Fd60,
    pub entropy: entropy::Entropy,
    on_idle: Option<Box<dyn FnMut()>>,
    graces: u32,
    pub trace: Option<Vec<String>>,
    pub hash_seed: u64,
    prio_rng: Rng,
    pub max_stack: usize,
}

thread_local! {
    static SIM: Cell<*mut Sim> = const { Cell::new(std::ptr::null_mut()) };
}

static STACKS: Mutex<Vec<DefaultStack>> = Mutex::new(Vec::new());

fn take_stack() -> DefaultStack {
    let mut g = STACKS.lock().unwrap_or_else(|e| e.into_inner());
    g.pop().unwrap_or_else(|| DefaultStack::new(STACK_SIZE).expect("stack"))
}
fn give_stack(s: DefaultStack) {
    let mut g = STACKS.lock().unwrap_or_else(|e| e.into_inner());
    if g.len() < 256 {
        g.push(s);
    }
}

/// The simulator of this thread, if there is one.
#[allow(clippy::mut_from_ref)]
pub fn sim() -> Option<&'static mut Sim> {
    let p = SIM.try_with(|s| s.get()).unwrap_or(std::ptr::null_mut());
    if p.is_null() {
        None
    } else {
        // SAFETY: set for the duration of `run` on this very thread; callers never keep it across a scheduling point
        Some(unsafe { &mut *p })
    }
}

/// The simulator, if we are inside one of its coroutines.
pub fn in_coro() -> Option<&'static mut Sim> {
    sim().filter(|s| s.cur.is_some() && !s.ending)
}

pub fn cur_tid() -> Option<Tid> {
    in_coro().and_then(|s| s.cur)
}

impl Sim {
    pub fn now(&self) -> u64 {
        self.now
    }
    pub fn steps(&self) -> u64 {
        self.steps
    }
    pub fn count(&mut self, what: &'static str) {
        *self.stats.counts.entry(what).or_insert(0) += 1;
    }
    pub fn add(&mut self, what: &'static str, n: u64) {
        *self.stats.counts.entry(what).or_insert(0) += n;
    }
    pub fn note(&mut self, x: u64) {
        self.hash = (self.hash ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
    }
    /// Makes these values part of the fingerprint of the run.
    pub fn hash_in(&mut self, it: impl Iterator<Item = u64>) {
        let mut h = self.hash;
        for x in it {
            h = (h ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
        }
        self.hash = h;
    }
    fn choose(&mut self, s: Stream, n: u32, gen: impl FnOnce(&mut Rng) -> u32) -> u32 {
        self.tapes[s as usize].choose(n, gen)
    }
    /// True with probability p/256; "false" is the simple choice.
    pub fn flip(&mut self, s: Stream, p: u32) -> bool {
        if p == 0 {
            return false;
        }
        self.choose(s, 2, |r| (r.below(256) < p as u64) as u32) == 1
    }
    /// Uniform choice; 0 is the simple one.
    pub fn pick(&mut self, s: Stream, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        self.choose(s, n, |r| r.below(n as u64) as u32)
    }
    /// A size in 1..=max under the fragmentation mode `frag`; 0 on the tape means max.
    pub fn fragment(&mut self, max: usize, frag: u32) -> usize {
        if max <= 1 || frag == 0 {
            return max;
        }
        let n = max.min(1 << 20) as u32;
        let v = self.choose(Stream::Net, n, |r| {
            let k = match frag {
                1 => {
                    if r.chance(1, 2) {
                        0
                    } else {
                        1 + r.below((n - 1) as u64) as u32
                    }
                }
                _ => match r.below(8) {
                    0 => 0,
                    1 => 1 + r.below((n - 1) as u64) as u32,
                    2 | 3 => 1 + r.below(16.min(n - 1) as u64) as u32,
                    4 | 5 => 1 + r.below(4.min(n - 1) as u64) as u32,
                    _ => 1,
                },
            };
            k.min(n - 1)
        });
        if v == 0 {
            max
        } else {
            v as usize
        }
    }

    fn set_runnable(&mut self, t: Tid) {
        if let State::Blocked(_) = self.coros[t].state {
            self.coros[t].state = State::Runnable;
        }
    }

    pub fn name_of(&self, t: Tid) -> &str {
        &self.coros[t].name
    }
    pub fn last_sock(&self) -> Option<usize> {
        self.cur.and_then(|c| self.coros[c].last_sock)
    }
    pub fn set_last_sock(&mut self, s: usize) {
        if let Some(c) = self.cur {
            self.coros[c].last_sock = Some(s);
        }
    }
    pub fn set_last_write(&mut self, s: usize) {
        if let Some(c) = self.cur {
            self.coros[c].last_write = Some(s);
        }
    }
    pub fn last_write(&self) -> Option<usize> {
        self.cur.and_then(|c| self.coros[c].last_write)
    }
    pub fn last_accept(&self) -> Option<usize> {
        self.cur.and_then(|c| self.coros[c].last_accept)
    }
    pub fn set_last_accept(&mut self, s: usize) {
        if let Some(c) = self.cur {
            self.coros[c].last_accept = Some(s);
        }
    }
    pub fn tasks_alive(&self) -> Vec<String> {
        self.coros
            .iter()
            .filter(|c| c.kind == Kind::Task && c.state != State::Done)
            .map(|c| c.name.clone())
            .collect()
    }
    pub fn outcome(&self) -> Option<&Violation> {
        self.outcome.as_ref()
    }

    /// Chooses who runs next among the runnable; `None` if nobody can.
    fn decide(&mut self, cur: Option<Tid>) -> Option<Tid> {
        loop {
            let mut cands: Vec<Tid> = Vec::with_capacity(16);
            if let Some(c) = cur {
                cands.push(c);
            }
            for (t, c) in self.coros.iter().enumerate() {
                if c.state == State::Runnable && Some(t) != cur {
                    cands.push(t);
                }
            }
            if cands.is_empty() {
                return None;
            }
            if self.knobs.early_timer > 0 && !self.timers.is_empty() && self.flip(Stream::Misc, self.knobs.early_timer) {
                self.count("fault.early_timer");
                self.fire_timer();
                continue;
            }
            if self.knobs.spurious_wake > 0 && self.flip(Stream::Misc, self.knobs.spurious_wake) {
                let parked: Vec<Tid> = (0..self.coros.len())
                    .filter(|&t| {
                        self.coros[t].kind == Kind::Task && self.coros[t].state == State::Blocked(Block::Parked)
                    })
                    .collect();
                if !parked.is_empty() {
                    let i = self.pick(Stream::Misc, parked.len() as u32) as usize;
                    self.count("fault.spurious_wake");
                    self.coros[parked[i]].woken = true;
                    self.set_runnable(parked[i]);
                    continue;
                }
            }
            if cands.len() == 1 {
                return Some(cands[0]);
            }
            let n = cands.len() as u32;
            let stay_possible = cur.is_some();
            let strategy = self.knobs.strategy.clone();
            let coros = &mut self.coros;
            let prio_rng = &mut self.prio_rng;
            let i = self.tapes[Stream::Sched as usize].choose(n, |r| match strategy {
                Strategy::Random { p } => {
                    if stay_possible && r.below(256) >= p as u64 {
                        0
                    } else {
                        r.below(n as u64) as u32
                    }
                }
                Strategy::RunToBlock => {
                    if stay_possible {
                        0
                    } else {
                        r.below(n as u64) as u32
                    }
                }
                Strategy::Pct { n: k } => {
                    if stay_possible && r.below(k as u64) == 0 {
                        // lower the priority of the current one below everybody else's
                        coros[cands[0]].prio = prio_rng.u64() >> 33;
                    }
                    let mut best = 0;
                    for (i, &t) in cands.iter().enumerate() {
                        if coros[t].prio > coros[cands[best]].prio {
                            best = i;
                        }
                    }
                    best as u32
                }
                Strategy::Slow { p, w } => {
                    if stay_possible && r.below(256) >= p as u64 {
                        0
                    } else {
                        let mut i = r.below(n as u64) as usize;
                        for _ in 0..8 {
                            let slow = coros[cands[i]].prio % 4 == 0;
                            if !slow || r.below(w as u64) == 0 {
                                break;
                            }
                            i = r.below(n as u64) as usize;
                        }
                        i as u32
                    }
                }
            });
            return Some(cands[i as usize]);
        }
    }

    fn fire_timer(&mut self) {
        if let Some(((t, _), target)) = self.timers.pop_first() {
            if t > self.now {
                self.now = t;
            }
            match target {
                TimerTarget::Tid(tid) => self.set_runnable(tid),
                TimerTarget::Waker(w) => w.wake(),
            }
        }
    }

    pub fn add_timer(&mut self, at: u64, target: TimerTarget) -> (u64, u64) {
        self.seq += 1;
        let key = (at, self.seq);
        self.timers.insert(key, target);
        key
    }
    pub fn cancel_timer(&mut self, key: (u64, u64)) {
        self.timers.remove(&key);
    }
    pub fn next_timer(&self) -> Option<u64> {
        self.timers.keys().next().map(|k| k.0)
    }
    pub fn seq(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }
}

/// Global, strictly increasing event number.
pub fn next_seq() -> u64 {
    sim().map(|s| s.seq()).unwrap_or(0)
}
pub fn now() -> u64 {
    sim().map(|s| s.now).unwrap_or(0)
}
pub fn count(what: &'static str) {
    if let Some(s) = sim() {
        let _g = alloc::harness();
        s.count(what);
    }
}
pub fn trace(f: impl FnOnce() -> String) {
    if let Some(s) = sim() {
        if s.trace.is_some() {
            let _g = alloc::harness();
            let who = s.cur.map(|c| s.coros[c].name.clone()).unwrap_or_else(|| "-".into());
            let line = format!("[{:>9.3}ms #{:<5} {}] {}", s.now as f64 / 1e6, s.steps, who, f());
            s.trace.as_mut().unwrap().push(line);
        }
    }
}

fn suspend(s: &mut Sim) {
    let c = s.cur.expect("suspend outside of a coroutine");
    s.coros[c].domain = alloc::get_domain();
    let y = s.coros[c].yielder;
    // SAFETY: the yielder lives on the coroutine's own stack as long as the coroutine does
    unsafe { (*y).suspend(()) };
    // resumed
    if let Some(s) = sim() {
        alloc::set_domain(s.coros[c].domain);
    }
}

/// After so many scheduling points, a run goes on with what fragments and delays switched off.
const RELAX_STEPS: u64 = 62_500;

/// A scheduling point: anybody runnable may continue instead of us.
pub fn yield_point(site: u32) {
    let Some(s) = in_coro() else { return };
    if std::thread::panicking() {
        return;
    }
    let _g = alloc::harness();
    s.steps += 1;
    if s.steps >= RELAX_STEPS && !s.relaxed {
        s.relaxed = true;
        s.count("reach.relaxed");
        let k = &mut s.knobs;
        (k.early_timer, k.read_frag, k.write_frag, k.client_frag, k.spurious, k.spurious_wake) = (0, 0, 0, 0, 0, 0);
        (k.cap_c2s, k.cap_s2c) = (k.cap_c2s.max(4096), k.cap_s2c.max(4096));
        net::enlarge(4096);
    }
    if s.steps > s.knobs.max_steps {
        let msg = format!("no end of activity after {} scheduling points", s.steps);
        violate("livelock", msg);
        return;
    }
    let c = s.cur.unwrap();
    let n = s.decide(Some(c)).unwrap();
    if n != c {
        s.note((site as u64) << 32 | n as u64);
        s.next = Some(n);
        suspend(s);
    }
}

/// Blocks the current coroutine until somebody calls `unblock`. Callers must re-check their condition.
pub fn block(why: Block) {
    let s = in_coro().expect("blocking operation outside of the simulation");
    let _g = alloc::harness();
    s.steps += 1;
    let c = s.cur.unwrap();
    s.coros[c].state = State::Blocked(why);
    s.coros[c].blocked_since = s.idle_count;
    s.note(0xB10C << 32 | c as u64);
    suspend(s);
}

pub fn unblock(t: Tid) {
    if let Some(s) = sim() {
        s.set_runnable(t);
    }
}

/// Records a violation. If it is of a kind that the run is looking for, the run is abandoned: this does not return when called from
/// within a coroutine. Otherwise (it contradicts another property only) it is counted, and the run goes on.
pub fn violate(kind: &str, msg: String) {
    let Some(s) = sim() else {
        eprintln!("violation outside of a simulation: {kind}: {msg}");
        return;
    };
    if s.ending || s.outcome.is_some() {
        return;
    }
    if !(s.hard)(kind) {
        let _g = alloc::harness();
        trace(|| format!("(violation of another property: {kind}: {msg})"));
        *s.soft.entry(kind.to_string()).or_default() += 1;
        if s.soft.values().sum::<u64>() < 300 {
            return;
        }
    }
    violate_hard(kind, msg)
}

/// Like `violate`, but always abandons the run.
pub fn violate_hard(kind: &str, msg: String) {
    let Some(s) = sim() else {
        eprintln!("violation outside of a simulation: {kind}: {msg}");
        return;
    };
    if s.ending {
        return;
    }
    if s.outcome.is_none() {
        let _g = alloc::harness();
        trace(|| format!("VIOLATION {kind}: {msg}"));
        s.outcome = Some(Violation { kind: kind.into(), msg });
    }
    if s.cur.is_some() {
        loop {
            suspend(sim().unwrap());
        }
    }
}

/// Called from the panic hook. Returns false if the panic should take its normal course.
pub fn on_panic(loc: &str, payload: &str) -> bool {
    let Some(s) = in_coro() else { return false };
    let c = s.cur.unwrap();
    if s.coros[c].catch_panics {
        return false;
    }
    let harness = loc.contains("simcore/") || loc.contains("dst/src") || loc.contains("simtokio/") || loc.contains("simstd/");
    // an oracle may stumble once another property has been violated
    let kind = match harness {
        true if !s.soft.is_empty() => "aftermath",
        true => "harness-panic",
        false => "panic",
    };
    let who = s.coros[c].name.clone();
    violate_hard(kind, format!("panic in {who} at {loc}: {payload}"));
    true
}

/// While set, panics of the current coroutine unwind normally instead of ending the run.
pub fn catch_panics(on: bool) {
    if let Some(s) = in_coro() {
        let c = s.cur.unwrap();
        s.coros[c].catch_panics = on;
    }
}

fn spawn_coro(kind: Kind, name: String, f: Box<dyn FnOnce()>) -> Tid {
    let s = sim().expect("spawn outside of the simulation");
    let domain = if kind == Kind::Actor { alloc::HARNESS } else { alloc::get_domain() };
    let _g = alloc::harness();
    let tid = s.coros.len();
    let stack = take_stack();
    let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, _| {
        let s = sim().unwrap();
        let c = s.cur.unwrap();
        s.coros[c].yielder = y as *const _;
        alloc::set_domain(s.coros[c].domain);
        f();
    });
    let prio = s.prio_rng.u64() | 1 << 63;
    s.coros.push(Coro {
        co: Some(co),
        yielder: std::ptr::null(),
        state: State::Runnable,
        kind,
        name,
        woken: false,
        in_poll: false,
        domain,
        prio,
        blocked_since: 0,
        last_sock: None,
        last_accept: None,
        last_write: None,
        catch_panics: false,
    });
    tid
}

/// Starts a client or another part of the harness.
pub fn spawn_actor(name: impl Into<String>, f: impl FnOnce() + 'static) -> Tid {
    spawn_coro(Kind::Actor, name.into(), Box::new(f))
}
/// Starts a thread of the simulated program.
pub fn spawn_thread(name: impl Into<String>, f: impl FnOnce() + 'static) -> Tid {
    let t = spawn_coro(Kind::Thread, name.into(), Box::new(f));
    yield_point(site::SPAWN);
    t
}

pub mod site {
    pub const LOCK: u32 = 1;
    pub const UNLOCK: u32 = 2;
    pub const NOTIFY: u32 = 3;
    pub const NET: u32 = 4;
    pub const APP: u32 = 5;
    pub const SPAWN: u32 = 6;
    pub const TASK: u32 = 7;
    pub const ATOMIC: u32 = 8;
    pub const CLIENT: u32 = 9;
    pub const YIELD: u32 = 10;
}

////////////////////////////////////////////////////////////////////////////////
// tasks

struct TidWaker {
    tid: Tid,
    run: u64,
}
impl Wake for TidWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if let Some(s) = sim() {
            if s.run_id == self.run && self.tid < s.coros.len() {
                s.coros[self.tid].woken = true;
                if s.coros[self.tid].state == State::Blocked(Block::Parked) {
                    s.coros[self.tid].state = State::Runnable;
                }
            }
        }
    }
}

fn waker_for(tid: Tid) -> Waker {
    let _g = alloc::harness();
    let run = sim().unwrap().run_id;
    Waker::from(Arc::new(TidWaker { tid, run }))
}

struct SlotGuard;
impl SlotGuard {
    fn acquire() -> SlotGuard {
        loop {
            let s = sim().unwrap();
            if s.knobs.workers == 0 || s.slots_used < s.knobs.workers {
                s.slots_used += 1;
                return SlotGuard;
            }
            s.count("reach.worker_limit");
            block(Block::Slot);
        }
    }
}
impl Drop for SlotGuard {
    fn drop(&mut self) {
        if let Some(s) = sim() {
            s.slots_used -= 1;
            for t in 0..s.coros.len() {
                if s.coros[t].state == State::Blocked(Block::Slot) {
                    s.coros[t].state = State::Runnable;
                }
            }
        }
    }
}

/// Polls `fut` to completion on the current coroutine, like a runtime task (`limited`) or a `block_on`.
fn drive<F: Future>(mut fut: Pin<&mut F>, limited: bool, aborted: impl Fn() -> bool) -> Option<F::Output> {
    let tid = cur_tid().expect("drive outside of a coroutine");
    let waker = waker_for(tid);
    let mut cx = Context::from_waker(&waker);
    loop {
        {
            let _slot = if limited { Some(SlotGuard::acquire()) } else { None };
            if aborted() {
                return None;
            }
            let s = sim().unwrap();
            s.coros[tid].woken = false;
            s.coros[tid].in_poll = true;
            let r = fut.as_mut().poll(&mut cx);
            sim().unwrap().coros[tid].in_poll = false;
            if let Poll::Ready(v) = r {
                return Some(v);
            }
        }
        yield_point(site::TASK);
        while !sim().unwrap().coros[tid].woken {
            block(Block::Parked);
        }
    }
}

/// Runs a future to completion on the current coroutine.
pub fn block_on<F: Future>(fut: F) -> F::Output {
    let fut = std::pin::pin!(fut);
    drive(fut, false, || false).unwrap()
}

pub struct JoinState<T> {
    pub result: Option<Result<T, JoinErrorKind>>,
    pub finished: bool,
    pub waker: Option<Waker>,
    pub abort: bool,
    pub tid: Option<Tid>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum JoinErrorKind {
    Cancelled,
}
/// Shared between a task and its join handle. All accesses happen on the simulation's thread.
pub struct JoinCell<T>(pub std::cell::RefCell<JoinState<T>>);
// SAFETY: only used on one OS thread
unsafe impl<T> Send for JoinCell<T> {}
unsafe impl<T> Sync for JoinCell<T> {}

impl<T> JoinCell<T> {
    pub fn abort(&self) {
        let mut st = self.0.borrow_mut();
        st.abort = true;
        if let Some(t) = st.tid {
            if let Some(s) = sim() {
                s.coros[t].woken = true;
                if s.coros[t].state == State::Blocked(Block::Parked) {
                    s.coros[t].state = State::Runnable;
                }
            }
        }
    }
}

pub fn spawn_task<F>(fut: F) -> Arc<JoinCell<F::Output>>
where
    F: Future + 'static,
    F::Output: 'static,
{
    spawn_task_registered(fut, |_| ())
}

/// `register` gets to see the task before it can start running.
pub fn spawn_task_registered<F>(fut: F, register: impl FnOnce(&Arc<JoinCell<F::Output>>)) -> Arc<JoinCell<F::Output>>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let cell = Arc::new(JoinCell(std::cell::RefCell::new(JoinState {
        result: None,
        finished: false,
        waker: None,
        abort: false,
        tid: None,
    })));
    let cell2 = cell.clone();
    let s = in_coro().expect("tokio::spawn called outside of the simulation (no runtime)");
    s.count("tasks");
    let name = {
        let _g = alloc::harness();
        let full = std::any::type_name::<F>();
        let what = ["spawn_receiver", "spawn_transmitter", "main"]
            .iter()
            .find(|w| full.contains(*w))
            .copied()
            .unwrap_or("task");
        format!("{}#{}", what, s.coros.len())
    };
    let fut = Box::pin(fut);
    let tid = spawn_coro(
        Kind::Task,
        name,
        Box::new(move || {
            let mut fut = fut;
            let r = drive(fut.as_mut(), true, || cell2.0.borrow().abort);
            // like tokio: the future is dropped as soon as it is done
            drop(fut);
            let mut st = cell2.0.borrow_mut();
            st.finished = true;
            st.result = Some(match r {
                Some(v) => Ok(v),
                None => Err(JoinErrorKind::Cancelled),
            });
            let w = st.waker.take();
            drop(st);
            if let Some(w) = w {
                w.wake();
            }
        }),
    );
    cell.0.borrow_mut().tid = Some(tid);
    register(&cell);
    yield_point(site::SPAWN);
    cell
}

////////////////////////////////////////////////////////////////////////////////
// time

pub fn sleep_ns(ns: u64) {
    let s = in_coro().expect("sleep outside of the simulation");
    let t = s.cur.unwrap();
    let at = s.now.saturating_add(ns);
    {
        let _g = alloc::harness();
        s.add_timer(at, TimerTarget::Tid(t));
    }
    loop {
        block(Block::Timer);
        if sim().unwrap().now >= at {
            return;
        }
    }
}
pub fn sleep_ms(ms: u64) {
    sleep_ns(ms * 1_000_000)
}

/// Waits until nothing can happen any more (no runnable coroutine, no timer).
pub fn quiesce() {
    block(Block::Quiesce);
}

////////////////////////////////////////////////////////////////////////////////
// running a simulation

pub struct RunCfg {
    pub run_id: u64,
    pub seed: u64,
    pub hash_seed: u64,
    pub knobs: Knobs,
    pub replay: Option<Vec<Vec<u32>>>,
    pub trace: bool,
    pub hard: Box<dyn Fn(&str) -> bool>,
}

pub struct RunResult {
    pub outcome: Option<Violation>,
    /// violations of other properties
    pub soft: BTreeMap<String, u64>,
    pub tapes: Vec<Vec<u32>>,
    pub steps: u64,
    pub now: u64,
    pub hash: u64,
    pub stats: Stats,
    pub trace: Vec<String>,
}

/// Runs `director` as coroutine 0 until it returns or a violation is found. To be called on a fresh OS thread.
pub fn run(cfg: RunCfg, director: impl FnOnce() + 'static) -> RunResult {
    let mut tapes = Vec::new();
    for i in 0..N_STREAMS {
        tapes.push(Tape {
            replay: cfg.replay.as_ref().map(|r| r.get(i).cloned().unwrap_or_default()),
            pos: 0,
            rng: Rng::new(rng::mix(cfg.seed, 0x7A9E + i as u64)),
            rec: Vec::new(),
        });
    }
    let s = Box::new(Sim {
        run_id: cfg.run_id,
        knobs: cfg.knobs,
        tapes,
        coros: Vec::new(),
        cur: None,
        next: None,
        now: 0,
        timers: BTreeMap::new(),
        seq: 0,
        steps: 0,
        hash: 0xcbf29ce484222325,
        slots_used: 0,
        relaxed: false,
        idle_count: 0,
        ran_since_idle: false,
        ending: false,
        outcome: None,
        hard: cfg.hard,
        soft: BTreeMap::new(),
        stats: Stats::default(),
        net: net::Net::default(),
        fs: fs::Fs::default(),
        fd60: fd::Fd60::default(),
        entropy: entropy::Entropy::new(rng::mix(cfg.seed, 0xE27)),
        on_idle: None,
        graces: 0,
        trace: if cfg.trace { Some(Vec::new()) } else { None },
        hash_seed: cfg.hash_seed,
        prio_rng: Rng::new(rng::mix(cfg.seed, 0x9210)),
        max_stack: 0,
    });
    let p = Box::into_raw(s);
    SIM.with(|c| c.set(p));
    alloc::set_domain(alloc::HARNESS);
    spawn_coro(Kind::Actor, "director".into(), Box::new(director));

    main_loop(p);

    // SAFETY: p is ours; the coroutines access it through the thread-local only while resumed
    let s = unsafe { &mut *p };
    s.ending = true;
    s.cur = None;
    let failed = s.outcome.is_some() || !s.soft.is_empty();
    let mut coros = std::mem::take(&mut s.coros);
    for c in coros.iter_mut() {
        if let Some(mut co) = c.co.take() {
            if !co.done() && co.started() {
                // Abandon: after a violation no destructor may run (they would run into a half-finished world). Without a
                // violation, everything the program owns has been dropped in an orderly way before.
                unsafe { co.force_reset() };
            }
            if co.started() && !co.done() {
                std::mem::forget(co);
            } else if co.done() {
                give_stack(co.into_stack());
            } else if failed {
                // never started: its closure may own program objects
                std::mem::forget(co);
            }
        }
    }
    let on_idle = s.on_idle.take();
    if failed {
        std::mem::forget(on_idle);
        std::mem::forget(std::mem::take(&mut s.net));
        std::mem::forget(std::mem::take(&mut s.timers));
    } else {
        drop(on_idle);
    }
    SIM.with(|c| c.set(std::ptr::null_mut()));
    // SAFETY: created by Box::into_raw above
    let mut s = *unsafe { Box::from_raw(p) };
    drop(coros);
    RunResult {
        outcome: s.outcome.take(),
        soft: std::mem::take(&mut s.soft),
        tapes: s.tapes.drain(..).map(|t| t.rec).collect(),
        steps: s.steps,
        now: s.now,
        hash: s.hash,
        stats: s.stats,
        trace: s.trace.unwrap_or_default(),
    }
}

fn main_loop(p: *mut Sim) {
    loop {
        // SAFETY: single thread; re-borrowed after every resume
        let s = unsafe { &mut *p };
        if s.outcome.is_some() || s.coros[0].state == State::Done {
            return;
        }
        let t = match s.next.take() {
            Some(t) => Some(t),
            None => s.decide(None),
        };
        let Some(t) = t else {
            idle(p);
            continue;
        };
        s.ran_since_idle = true;
        s.cur = Some(t);
        let mut co = s.coros[t].co.take().expect("resuming a finished coroutine");
        let r = co.resume(());
        alloc::set_domain(alloc::HARNESS);
        let s = unsafe { &mut *p };
        s.cur = None;
        match r {
            CoroutineResult::Yield(()) => s.coros[t].co = Some(co),
            CoroutineResult::Return(()) => {
                s.coros[t].state = State::Done;
                give_stack(co.into_stack());
            }
        }
    }
}

/// Timers of the code under test that are due this soon (in ns) belong to the work in hand.
const GRACE: u64 = 20_000_000;
/// ... unless that goes on and on.
const GRACES: u32 = 2000;

fn idle(p: *mut Sim) {
    let s = unsafe { &mut *p };
    s.idle_count += 1;
    // threads waiting for a lock although nothing is runnable
    let timers = !s.timers.is_empty();
    let stuck: Vec<&Coro> = s
        .coros
        .iter()
        .filter(|c| c.state == State::Blocked(Block::Lock) && (!timers || s.idle_count - c.blocked_since > 64))
        .collect();
    if !stuck.is_empty() {
        let names: Vec<String> = stuck.iter().map(|c| c.name.clone()).collect();
        violate("deadlock", format!("waiting for a lock forever: {}", names.join(", ")));
        return;
    }
    if s.ran_since_idle {
        // what the server has put off for a moment (a short timer) is not late yet
        let until = s.now + GRACE;
        if s.graces < GRACES && s.timers.iter().take_while(|(k, _)| k.0 <= until).any(|(_, t)| matches!(t, TimerTarget::Waker(_))) {
            s.graces += 1;
            s.fire_timer();
            return;
        }
        s.graces = 0;
        s.ran_since_idle = false;
        if let Some(mut f) = s.on_idle.take() {
            f();
            let s = unsafe { &mut *p };
            s.on_idle = Some(f);
        }
        let s = unsafe { &mut *p };
        if s.outcome.is_some() {
            return;
        }
        if s.coros.iter().any(|c| c.state == State::Runnable) {
            return;
        }
    }
    let s = unsafe { &mut *p };
    if !s.timers.is_empty() {
        s.fire_timer();
        return;
    }
    for t in 0..s.coros.len() {
        if s.coros[t].state == State::Blocked(Block::Quiesce) {
            s.coros[t].state = State::Runnable;
            return;
        }
    }
    let blocked: Vec<String> = s
        .coros
        .iter()
        .filter_map(|c| match c.state {
            State::Blocked(b) => Some(format!("{} ({:?})", c.name, b)),
            _ => None,
        })
        .collect();
    violate("stuck", format!("nothing can happen any more, but the scenario is not finished: {}", blocked.join(", ")));
}

/// Installs the function called whenever nothing is runnable (before simulated time advances).
pub fn set_on_idle(f: Box<dyn FnMut()>) {
    sim().unwrap().on_idle = Some(f);
}
