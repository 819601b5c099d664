//! Generators of plans. Every choice is drawn from one generator seeded by (VERIF_SEED, property, run index).

use crate::plan::*;
use crate::proto;
use simcore::rng::{mix, Rng};

pub fn plan(prop: &str, base: u64, idx: u64) -> Plan {
    let salt = prop.bytes().fold(0u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64));
    let seed = mix(mix(base, salt), idx);
    let mut g = G { r: Rng::new(mix(seed, 0x617E)), prof: Prof::default(), ids: Vec::new(), screens: Vec::new(), secrets: Vec::new(), bulk: false };
    g.prof = profile(prop, &mut g.r);
    // the example server is one more application for most of the properties
    let whole = prop == "C17" || !matches!(prop, "C15" | "C16" | "C18" | "C19" | "C24" | "C25") && g.r.chance(1, 12);
    if whole {
        g.prof.overlong = 0;
    }
    let knobs = g.knobs(whole);
    let scen = match prop {
        _ if whole => Scen::Example(g.example()),
        "C15" => Scen::Discover(g.discover()),
        "C16" => Scen::Creds(g.creds()),
        "C19" => Scen::Path(g.path()),
        _ => {
            let mut p = g.server();
            let shells = match prop {
                "C24" | "C25" => true,
                "C02" | "C07" | "C10" | "C11" => g.r.chance(1, 8),
                _ => false,
            };
            if shells {
                g.shells(&mut p);
            }
            Scen::Server(p)
        }
    };
    Plan { prop: prop.into(), seed, hash_seed: g.r.u64(), knobs, scen }
}

/// Weights of what message clients send.
#[derive(Clone, Debug)]
struct MsgW {
    want: u32,
    eternal: u32,
    unknown: u32,
    echo: u32,
    burst: u32,
    cast: u32,
    fail: u32,
    bye: u32,
    make: u32,
    end: u32,
    hello: u32,
    garbage: u32,
    fuzz: u32,
    flood: u32,
    big: u32,
    sleep: u32,
}
impl MsgW {
    fn list(&self) -> Vec<u32> {
        vec![
            self.want, self.eternal, self.unknown, self.echo, self.burst, self.cast, self.fail, self.bye, self.make, self.end,
            self.hello, self.garbage, self.fuzz, self.flood, self.big, self.sleep,
        ]
    }
}
impl Default for MsgW {
    fn default() -> Self {
        MsgW {
            want: 8,
            eternal: 3,
            unknown: 5,
            echo: 6,
            burst: 3,
            cast: 4,
            fail: 3,
            bye: 1,
            make: 4,
            end: 2,
            hello: 2,
            garbage: 5,
            fuzz: 2,
            flood: 1,
            big: 1,
            sleep: 4,
        }
    }
}

#[derive(Clone, Debug, Default)]
struct Prof {
    clients: (u64, u64),
    ops: (u64, u64),
    /// weights: message client, child client, stdin, stdout, bad handshake, silent
    roles: [u32; 6],
    msg: MsgW,
    /// percent
    apps: u64,
    app_ops: (u64, u64),
    acts: (u64, u64),
    trigs: u64,
    kill: u32,
    stdin_acts: u32,
    msg_acts: u32,
    big_acts: u64,
    sock_fault: u64,
    stall: u64,
    no_read: u64,
    leave: u64,
    accept_err: u64,
    bind_err: u64,
    path_taken: u64,
    shutdown: u64,
    pre_shutdown: u64,
    intrude: u64,
    runs: u64,
    cycles: u64,
    /// percent: small pipes
    small_pipes: u64,
    overlong: u64,
    fill: (u64, u64),
    /// percent: the example's client creates others
    family: u64,
    strangers: u64,
    /// one run in so many: a long chain of broadcasts
    chain: u64,
    /// hundreds of broadcasts asked for at once
    floods: bool,
    /// what clients built from the library send: make, end, want, echo, hello, sleep
    lib: [u32; 6],
}

fn profile(prop: &str, r: &mut Rng) -> Prof {
    let mut p = Prof {
        clients: (1, 5),
        ops: (1, 8),
        roles: [10, 3, 3, 3, 3, 1],
        msg: MsgW::default(),
        apps: 40,
        app_ops: (1, 5),
        acts: (0, 4),
        trigs: 20,
        kill: 1,
        stdin_acts: 3,
        msg_acts: 4,
        big_acts: 20,
        sock_fault: 8,
        stall: 10,
        no_read: 4,
        leave: 25,
        accept_err: 2,
        bind_err: 0,
        path_taken: 0,
        shutdown: 4,
        pre_shutdown: 0,
        intrude: 1,
        runs: 3,
        cycles: 0,
        small_pipes: 40,
        overlong: 3,
        fill: (1, 300),
        family: if matches!(prop, "C10" | "C11") { 85 } else { 35 },
        strangers: if matches!(prop, "C07" | "C17") { 45 } else { 15 },
        lib: [14, 5, 2, 2, 1, 3],
        chain: if prop == "C06" { 150 } else { 1200 },
        floods: prop == "C06",
    };
    match prop {
        "C01" => {
            p.roles = [20, 2, 1, 3, 2, 0];
            p.msg = MsgW { garbage: 20, fuzz: 10, big: 6, flood: 2, eternal: 2, echo: 6, burst: 0, bye: 0, end: 1, ..MsgW::default() };
            p.sock_fault = 4;
            p.shutdown = 1;
            p.accept_err = 0;
            p.ops = (2, 14);
            p.kill = 0;
        }
        "C02" => {
            p.roles = [20, 4, 1, 1, 1, 0];
            p.msg = MsgW { want: 16, eternal: 10, unknown: 14, fail: 8, hello: 5, make: 4, end: 3, bye: 1, burst: 1, garbage: 6, ..MsgW::default() };
            p.overlong = 12;
            p.ops = (2, 16);
            p.sock_fault = 3;
            p.kill = 0;
            p.shutdown = 0;
            p.accept_err = 0;
        }
        "C03" => {
            p.roles = [16, 2, 2, 1, 1, 0];
            p.msg = MsgW { echo: 12, burst: 12, cast: 10, flood: 2, garbage: 1, ..MsgW::default() };
            p.apps = 70;
            p.acts = (1, 5);
            p.msg_acts = 12;
            p.big_acts = 40;
            p.stall = 30;
            p.small_pipes = 60;
            p.kill = 0;
            p.shutdown = 1;
            p.accept_err = 0;
        }
        "C04" => {
            p.roles = [5, 1, 12, 2, 1, 0];
            p.msg = MsgW { cast: 14, burst: 4, ..MsgW::default() };
            p.apps = 90;
            p.app_ops = (1, 8);
            p.acts = (1, 5);
            p.stdin_acts = 20;
            p.msg_acts = 3;
            p.big_acts = 45;
            p.stall = 30;
            p.small_pipes = 60;
            p.kill = 0;
            p.shutdown = 1;
            p.accept_err = 0;
        }
        "C05" => {
            p.roles = [4, 1, 2, 16, 1, 0];
            p.fill = (1, 6000);
            p.leave = 45;
            p.sock_fault = 12;
            p.shutdown = 1;
            p.accept_err = 0;
        }
        "C06" => {
            p.roles = [10, 2, 3, 3, 2, 2];
            p.msg = MsgW { cast: 30, burst: 1, garbage: 1, fuzz: 0, big: 0, ..MsgW::default() };
            p.apps = 100;
            p.app_ops = (1, 10);
            p.acts = (1, 6);
            p.trigs = 70;
            p.kill = 2;
            p.big_acts = 3;
            p.clients = (1, 6);
            p.small_pipes = 20;
            p.shutdown = 2;
        }
        "C07" => {
            p.roles = [8, 3, 6, 6, 14, 2];
            p.msg = MsgW { hello: 14, ..MsgW::default() };
            p.ops = (1, 6);
            p.clients = (2, 6);
            p.shutdown = 2;
        }
        "C08" => {
            p.roles = [10, 3, 5, 5, 5, 2];
            p.msg = MsgW { bye: 8, end: 5, make: 5, flood: 2, cast: 6, ..MsgW::default() };
            p.kill = 6;
            p.sock_fault = 25;
            p.leave = 40;
            p.shutdown = 8;
            p.accept_err = 3;
            p.apps = 60;
            p.acts = (1, 5);
            p.overlong = 6;
        }
        "C09" => {
            p.roles = [10, 3, 4, 4, 6, 4];
            p.msg = MsgW { bye: 6, end: 3, cast: 6, ..MsgW::default() };
            p.kill = 5;
            p.sock_fault = 40;
            p.leave = 45;
            p.trigs = 40;
            p.clients = (1, 7);
            p.ops = (0, 6);
            p.shutdown = 6;
            p.accept_err = 3;
        }
        "C10" => {
            p.roles = [12, 8, 1, 1, 1, 0];
            p.msg = MsgW { make: 40, end: 6, garbage: 1, flood: 0, big: 0, burst: 1, ..MsgW::default() };
            p.clients = (1, 6);
            p.trigs = 30;
            p.kill = 1;
            p.sock_fault = 3;
            p.shutdown = 1;
            p.accept_err = 0;
        }
        "C11" => {
            p.roles = [12, 12, 2, 2, 1, 0];
            p.msg = MsgW { make: 25, end: 25, garbage: 1, flood: 1, big: 0, burst: 1, ..MsgW::default() };
            p.clients = (2, 7);
            p.ops = (2, 12);
            p.trigs = 20;
            p.kill = 0;
            p.sock_fault = 2;
            p.shutdown = 1;
            p.accept_err = 0;
        }
        "C12" => {
            p.msg = MsgW { garbage: 15, fuzz: 12, flood: 6, big: 8, burst: 4, bye: 3, ..MsgW::default() };
            p.sock_fault = 20;
            p.stall = 20;
            p.no_read = 15;
            p.leave = 35;
            p.overlong = 12;
            p.kill = 2;
            p.shutdown = 2;
            p.trigs = 30;
        }
        "C13" => {
            p.shutdown = 85;
            p.pre_shutdown = 10;
            p.intrude = 15;
            p.runs = 25;
            p.apps = 70;
            p.acts = (0, 4);
            p.accept_err = 2;
            p.no_read = 15;
            p.stall = 15;
            p.trigs = 30;
        }
        "C14" => {
            p.accept_err = 65;
            p.bind_err = 20;
            p.intrude = 15;
            p.path_taken = 15;
            p.runs = 60;
            p.clients = (1, 6);
            p.no_read = 10;
            p.shutdown = 6;
            p.ops = (0, 6);
        }
        "C18" => {
            p.cycles = 100;
            p.clients = (1, 4);
            p.ops = (0, 5);
            p.sock_fault = 20;
            p.kill = 2;
            p.leave = 50;
            p.shutdown = 0;
            p.accept_err = 0;
            p.runs = 0;
            p.apps = 30;
            p.no_read = 10;
            p.overlong = 3;
            p.msg.flood = 0;
            p.msg.big = 1;
            p.msg.bye = 4;
            p.msg.end = 4;
        }
        "C24" => {
            p.clients = (0, 3);
            p.roles = [10, 6, 1, 1, 1, 0];
            p.msg = MsgW { make: 10, end: 6, garbage: 1, flood: 0, big: 0, burst: 1, ..MsgW::default() };
            p.ops = (1, 5);
            p.sock_fault = 3;
            p.shutdown = 1;
            p.accept_err = 0;
            p.kill = 0;
            p.trigs = 10;
            p.apps = 20;
        }
        "C25" => {
            p.clients = (0, 3);
            p.roles = [10, 2, 2, 2, 2, 0];
            p.msg.big = 0;
            p.msg.flood = 0;
            p.ops = (1, 5);
            p.sock_fault = 3;
            p.shutdown = 1;
            p.accept_err = 0;
            p.kill = 0;
            p.trigs = 10;
            p.apps = 40;
            p.lib = [5, 3, 6, 14, 3, 2];
        }
        _ => {}
    }
    // swarm: leave out some kinds of operations altogether
    if r.chance(1, 3) {
        let m = &mut p.msg;
        for w in [
            &mut m.want, &mut m.eternal, &mut m.unknown, &mut m.burst, &mut m.fail, &mut m.bye, &mut m.garbage, &mut m.fuzz, &mut m.flood,
            &mut m.big, &mut m.sleep, &mut m.hello,
        ] {
            if r.chance(1, 2) {
                *w = 0;
            }
        }
    }
    if r.chance(1, 4) {
        // without faults
        p.sock_fault = 0;
        p.kill = 0;
        if !matches!(prop, "C14") {
            p.accept_err = 0;
        }
        if !matches!(prop, "C13") {
            p.shutdown = 0;
        }
    }
    p
}

struct G {
    r: Rng,
    prof: Prof,
    ids: Vec<String>,
    screens: Vec<String>,
    secrets: Vec<String>,
    /// large volumes are affordable in this run
    bulk: bool,
}

const MODULES: &[&str] = &["core1", "posix1", "sim1", "core2", "sim2", "foo1", "x65535", "core11", "posix10", "_a-b7", "Core1"];
const BAD_MODULES: &[&str] =
    &["core", "1", "", "core0", "core01", "core1.0", "co re1", "core65536", "-a1", "core1 ", "c\u{e9}1", "core1.", "want", "7core", "core1a"];
/// client IDs for the example server, whose own client is "a"
const XIDS: [&str; 9] = ["ab", "ab", "abc", "ac", "abcd", "a", "b", "a b", "ac1"];
const ERRNOS: &[i32] = &[libc::EIO, libc::ECONNRESET, libc::EPIPE, libc::ENOBUFS, libc::ETIMEDOUT, libc::ENOTCONN];
const SPECIAL: &[&[u8]] = &[
    b"", b"{", b"}", b"|", b",", b":", b"{1|4:want,}", b"{2|4:want,5:core1,}", b"\0", b"\xff", b"\xc3\xa9", b"3:abc,", b"{{{", b"\n",
    b"{1|0:,}",
];

impl G {
    fn pct(&mut self, p: u64) -> bool {
        self.r.below(100) < p
    }

    fn knobs(&mut self, whole: bool) -> KnobsP {
        let (strategy, p, w) = match self.r.below(10) {
            0..=3 => (0, *self.r.pick(&[8, 32, 96, 200, 256]), 1),
            4..=6 => (1, *self.r.pick(&[4, 20, 100, 500]), 1),
            7 => (2, 0, 1),
            _ => (3, *self.r.pick(&[32, 96, 200]), *self.r.pick(&[10, 50, 300])),
        };
        let frag = |g: &mut G| match g.r.below(10) {
            0..=3 => 0,
            4..=6 => 1,
            _ => 2,
        };
        let (a, b, c) = (frag(self), frag(self), frag(self));
        let small = self.prof.small_pipes;
        let cap = |g: &mut G| {
            if g.pct(small) {
                *g.r.pick(&[1, 7, 64, 500, 1024, 4080, 9000])
            } else {
                *g.r.pick(&[65536, 212_992])
            }
        };
        let (c2s, s2c) = (cap(self), cap(self));
        self.bulk = a == 0 && b == 0 && c == 0 && c2s.min(s2c) >= 65536 && self.pct(40);
        let rare = |g: &mut G| if g.pct(30) { *g.r.pick(&[4, 20, 60]) } else { 0 };
        let (spurious, spurious_wake) = (rare(self), rare(self));
        KnobsP {
            strategy,
            p,
            w,
            workers: *self.r.pick(&[0, 0, 1, 2, 4]),
            early_timer: if self.pct(30) && !whole { *self.r.pick(&[1, 4, 16]) } else { 0 },
            read_frag: a,
            write_frag: b,
            client_frag: c,
            spurious,
            spurious_wake,
            cap_c2s: c2s,
            cap_s2c: s2c,
            max_steps: 3_000_000,
        }
    }

    ////////////////////////////////////////////////////////////////////////////
    // pieces of messages

    fn bytes(&mut self, n: usize) -> B {
        let text = self.r.chance(1, 2);
        B((0..n).map(|_| if text { b'a' + self.r.below(26) as u8 } else { self.r.u64() as u8 }).collect())
    }
    fn arg(&mut self) -> B {
        match self.r.below(8) {
            0..=2 => B(self.r.pick(SPECIAL).to_vec()),
            3..=6 => {
                let n = self.r.below(20) as usize;
                self.bytes(n)
            }
            _ => {
                let n = self.r.below(300) as usize;
                self.bytes(n)
            }
        }
    }
    fn module(&mut self) -> String {
        self.r.pick(MODULES).to_string()
    }
    /// an identifier of this length
    fn long_ident(&mut self, n: usize) -> String {
        (0..n.max(1)).map(|i| (b'a' + ((i * 7 + n) % 26) as u8) as char).collect()
    }
    fn msg(&mut self, items: &[&[u8]]) -> COp {
        COp::Msg(items.iter().map(|i| B(i.to_vec())).collect())
    }
    fn want(&mut self) -> COp {
        let overlong = self.prof.overlong;
        if self.pct(overlong) {
            // around the longest possible reply
            let n = 1024 - 20 + self.r.range(0, 8) as usize;
            let m = format!("{}1", self.long_ident(n - 1));
            return self.msg(&[b"want", m.as_bytes()]);
        }
        match self.r.below(10) {
            0..=5 => {
                let m = self.module();
                self.msg(&[b"want", m.as_bytes()])
            }
            6 | 7 => {
                let m = if self.r.chance(1, 3) {
                    let n = *self.r.pick(&[2usize, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500]);
                    format!("{}1", self.long_ident(n - 1))
                } else {
                    self.r.pick(BAD_MODULES).to_string()
                };
                self.msg(&[b"want", m.as_bytes()])
            }
            8 => self.msg(&[b"want"]),
            _ => {
                let (a, b) = (self.module(), self.arg());
                self.msg(&[b"want", a.as_bytes(), &b.0])
            }
        }
    }
    fn eternal(&mut self) -> COp {
        let ty: &[u8] = *self.r.pick(&[&b"have"[..], b"nope"]);
        let a = match self.r.below(4) {
            0 => B(Vec::new()),
            1 => B::from("core1.0"),
            2 => B::from("core1"),
            _ => self.arg(),
        };
        match self.r.below(3) {
            0 => self.msg(&[ty]),
            1 => self.msg(&[ty, &a.0]),
            _ => self.msg(&[ty, &a.0, &a.0]),
        }
    }
    fn unknown(&mut self) -> COp {
        let overlong = self.prof.overlong;
        let m = if self.pct(overlong) {
            let n = 1024 - 22 + self.r.range(0, 10) as usize;
            format!("{}9", self.long_ident(n))
        } else {
            self.module()
        };
        let name = *self.r.pick(&["foo", "client-new", "client-makes", "set", "sub", "server-hello", "parent-hello", "x", "a-b_c", "lookup", "stdin-hell"]);
        let ty = format!("{m}.{name}");
        let n = self.r.below(4) as usize;
        let mut items = vec![B::from(ty)];
        for _ in 0..n {
            items.push(self.arg());
        }
        COp::Msg(items)
    }
    fn echo(&mut self) -> COp {
        let overlong = self.prof.overlong;
        let mut items = vec![B::from("sim1.echo")];
        if self.pct(overlong) {
            // {2|7:sim1.re,NNNN:...,}
            let n = 1024 - 20 + self.r.range(0, 5) as usize;
            items.push(self.bytes(n));
        } else {
            for _ in 0..self.r.below(4) {
                items.push(self.arg());
            }
            if self.pct(10) {
                let n = self.r.range(300, 900) as usize;
                items.truncate(1);
                items.push(self.bytes(n));
            }
        }
        COp::Msg(items)
    }
    fn size(&mut self) -> u32 {
        match self.r.below(6) {
            0 => self.r.range(1000, 1024) as u32,
            1 => 1024,
            2 => self.r.range(400, 1024) as u32,
            _ => self.r.range(20, 120) as u32,
        }
    }
    fn burst(&mut self) -> COp {
        let n = match self.r.below(8) {
            0 if self.bulk => self.r.range(200, 900),
            0 => self.r.range(50, 200),
            1 | 2 => self.r.range(10, 30),
            _ => self.r.range(1, 6),
        };
        let s = self.size();
        self.msg(&[b"sim1.burst", n.to_string().as_bytes(), s.to_string().as_bytes()])
    }
    fn cast_op(&mut self, acts: usize) -> COp {
        if acts == 0 {
            return self.want();
        }
        let n = self.r.below(acts as u64);
        if self.pct(4) {
            let k = if self.prof.floods && self.r.chance(1, 12) { self.r.range(200, 700) as u32 } else { *self.r.pick(&[9u32, 33, 40, 70, 130]) };
            return COp::Flood(vec![B::from("sim1.cast"), B::from(n.to_string())], k);
        }
        self.msg(&[b"sim1.cast", n.to_string().as_bytes()])
    }
    fn fail(&mut self) -> COp {
        match self.r.below(5) {
            0 => self.msg(&[b"sim1.bad"]),
            1 => self.msg(&[b"sim1.bad", b"x", b""]),
            2 => self.msg(&[b"sim1.unheard-of"]),
            3 => {
                let a = self.arg();
                self.msg(&[b"core1.client-make", b"ax", &a.0])
            }
            _ => self.msg(&[b"core1.client-end"]),
        }
    }
    fn bye(&mut self) -> COp {
        let t: &[u8] = *self.r.pick(&[&b"sim1.bye"[..], b"sim1.byebad", b"sim1.byewhat"]);
        self.msg(&[t])
    }
    /// A client ID, mostly near those that exist.
    fn id(&mut self, own: &str) -> String {
        match self.r.below(12) {
            0 => own.to_string(),
            1 => own[..own.len().saturating_sub(1)].to_string(),
            2 => self.r.pick(&["", "a b", "a-", "\u{e9}", "a.b", "zz", "Z"]).to_string(),
            3 | 4 if !self.ids.is_empty() => {
                let n = self.ids.len();
                let id = self.ids[self.r.usize(n)].clone();
                if self.pct(8) {
                    // not the same in another case
                    if id.bytes().any(|b| b.is_ascii_uppercase()) { id.to_ascii_lowercase() } else { id.to_ascii_uppercase() }
                } else {
                    id
                }
            }
            5 | 6 if !self.ids.is_empty() => {
                let n = self.ids.len();
                let base = self.ids[self.r.usize(n)].clone();
                format!("{base}{}", self.r.pick(&["a", "1", "b"]))
            }
            _ => {
                let mut s = own.to_string();
                let depth = if self.pct(8) { self.r.range(3, 24) } else { self.r.range(1, 2) };
                for _ in 0..depth {
                    s.push(*self.r.pick(&['a', 'b', '1', 'Z']));
                }
                s
            }
        }
    }
    fn make(&mut self, own: &str) -> COp {
        let id = self.id(own);
        if proto::is_client_id(id.as_bytes()) && self.ids.len() < 20 {
            self.ids.push(id.clone());
        }
        let scr = |g: &mut G| -> Vec<u8> {
            match g.r.below(6) {
                0 | 1 => Vec::new(),
                2 | 3 if !g.screens.is_empty() => {
                    let n = g.screens.len();
                    g.screens[g.r.usize(n)].clone().into_bytes()
                }
                4 => g.arg().0,
                _ => b"screen".to_vec(),
            }
        };
        let (a, b, c) = (scr(self), scr(self), scr(self));
        if self.pct(6) {
            return self.msg(&[b"core1.client-make", id.as_bytes(), &a, &b]);
        }
        self.msg(&[b"core1.client-make", id.as_bytes(), &a, &b, &c])
    }
    fn end(&mut self, own: &str) -> COp {
        let id = self.id(own);
        if self.pct(5) {
            return self.msg(&[b"core1.client-end", id.as_bytes(), b""]);
        }
        self.msg(&[b"core1.client-end", id.as_bytes()])
    }
    fn some_secret(&mut self) -> Secret {
        match self.r.below(9) {
            0 | 1 if !self.secrets.is_empty() => {
                let n = self.secrets.len();
                Secret::Lit(B::from(self.secrets[self.r.usize(n)].clone()))
            }
            2 => Secret::Root(self.r.usize(4)),
            3 => Secret::In(self.r.usize(3)),
            4 => Secret::Out(self.r.usize(3)),
            5 if !self.ids.is_empty() => {
                let n = self.ids.len();
                Secret::Made(self.ids[self.r.usize(n)].clone())
            }
            6 => Secret::Lit(self.arg()),
            7 if !self.secrets.is_empty() => {
                // almost right
                let n = self.secrets.len();
                let mut s = self.secrets[self.r.usize(n)].clone().into_bytes();
                match self.r.below(7) {
                    0 => s.push(*self.r.pick(b"\n \0x/")),
                    1 => s.insert(0, *self.r.pick(b"\n \0x/")),
                    2 => s.make_ascii_uppercase(),
                    3 => drop(s.pop()),
                    4 if !s.is_empty() => drop(s.remove(0)),
                    5 => s.extend_from_slice(&s.clone()),
                    _ => s.reverse(),
                }
                Secret::Lit(B(s))
            }
            _ => Secret::Lit(B::from("wrong")),
        }
    }
    fn hello_kind(&mut self) -> HelloKind {
        *self.r.pick(&[HelloKind::Stdin, HelloKind::Stdout, HelloKind::Client])
    }
    fn hello(&mut self) -> COp {
        match self.r.below(6) {
            0 => {
                let t: &[u8] = *self.r.pick(&[&b"posix1.stdin-hello"[..], b"posix1.stdout-hello", b"posix1.client-hello"]);
                self.msg(&[t])
            }
            1 => {
                let t: &[u8] = *self.r.pick(&[&b"posix1.stdin-hello"[..], b"posix1.stdout-hello", b"posix1.client-hello"]);
                let (a, b) = (self.arg(), self.arg());
                self.msg(&[t, &a.0, &b.0])
            }
            _ => COp::Hello(self.hello_kind(), self.some_secret()),
        }
    }
    /// Some message, encoded.
    fn some_msg(&mut self) -> Vec<u8> {
        let op = match self.r.below(5) {
            0 => self.want(),
            1 => self.eternal(),
            2 => self.unknown(),
            3 => self.echo(),
            _ => self.fail(),
        };
        match op {
            COp::Msg(items) => proto::encode(&items),
            _ => Vec::new(),
        }
    }
    fn garbage(&mut self) -> COp {
        let mut v = match self.r.below(22) {
            10 => b"{18446744073709551616|".to_vec(),
            11 => b"{1|18446744073709551616:want,}".to_vec(),
            12 => b"{1|99999999999999999999999:".to_vec(),
            13 => b"{01|4:want,}".to_vec(),
            14 => b"{1:4:want,}".to_vec(),
            15 => b"{1|4|want,}".to_vec(),
            16 => b"{1|4:want,,".to_vec(),
            17 => self.r.pick(&[&b"{1|4:\xff\xfe\x80a,}"[..], b"{1|0:,}", b"{1|6:core1.,}", b"{1|8:core0.ab,}", b"{1|4:WANT,}", b"{1|5:want ,}"]).to_vec(),
            18 => b"{|".to_vec(),
            19 => b"{1|:".to_vec(),
            20 | 21 => self.r.pick(&[&b"\n"[..], b" ", b"\0", b"\r\n", b",", b"|", b"\xc3", b"\n\n\n\n"]).to_vec(),
            0 => b"}".to_vec(),
            1 => b"xyz".to_vec(),
            2 => b"{{{{".to_vec(),
            3 => b"{0|}".to_vec(),
            4 => b"{1|04:want,}".to_vec(),
            5 => b"{1|4:want;}{".to_vec(),
            6 => b"{99999999999999999999999|".to_vec(),
            7 => b"{1|3:foo,}{1|1:.,}".to_vec(),
            8 => b"{1|18446744073709551615:".to_vec(),
            _ => {
                let n = self.r.range(1, 40) as usize;
                self.bytes(n).0
            }
        };
        // mostly without a beginning that swallows what follows
        if self.r.chance(2, 3) {
            v.extend_from_slice(b"}{1|x");
            if self.r.chance(1, 2) {
                v.push(b'\n');
            }
        }
        COp::Raw(B(v))
    }
    /// A damaged message.
    fn fuzz(&mut self) -> COp {
        let mut v = self.some_msg();
        for _ in 0..self.r.range(1, 3) {
            if v.is_empty() {
                break;
            }
            let i = self.r.usize(v.len());
            match self.r.below(5) {
                0 => {
                    v.remove(i);
                }
                1 => {
                    let c = *self.r.pick(b"{}|:,019a\xff");
                    v.insert(i, c);
                }
                2 => v.truncate(i),
                3 => {
                    let c = *self.r.pick(b"{}|:,019a\0");
                    v[i] = c;
                }
                _ => v[i] = v[i].wrapping_add(1),
            }
        }
        if self.r.chance(1, 2) {
            let m = self.some_msg();
            v.extend(m);
        }
        COp::Raw(B(v))
    }
    fn big(&mut self) -> COp {
        let n = match self.r.below(6) {
            0 => self.r.range(900, 1100),
            1 => self.r.range(2000, 2100),
            2 => self.r.range(3900, 4200),
            3 => self.r.range(8000, 20000),
            4 if self.bulk && self.r.chance(1, 3) => self.r.range(60_000, 600_000),
            _ => self.r.range(1000, 6000),
        } as usize;
        let a = self.bytes(n);
        let ty: &[u8] = *self.r.pick(&[&b"have"[..], b"foo1.bar", b"want", b"sim1.bad"]);
        if self.r.chance(1, 4) {
            // many arguments
            let mut items = vec![B(ty.to_vec())];
            for _ in 0..self.r.range(20, 300) {
                let n = self.r.below(5) as usize;
                items.push(self.bytes(n));
            }
            return COp::Msg(items);
        }
        self.msg(&[ty, &a.0])
    }
    fn flood(&mut self) -> COp {
        let n = *self.r.pick(&[20u32, 60, 150, 400]);
        match self.r.below(4) {
            0 => COp::Flood(vec![B::from("want")], n),
            1 => COp::Flood(vec![B::from("want"), B::from("core1")], n),
            2 => COp::Flood(vec![B::from("have")], n),
            _ => {
                // a message that is received in many pieces, followed by lots of small ones at once
                let k = self.r.range(4000, 30000) as usize;
                let mut raw = proto::encode(&[b"have".to_vec(), vec![b'x'; k]]);
                for _ in 0..k / 9 {
                    raw.extend_from_slice(b"{1|4:have,}");
                }
                COp::Raw(B(raw))
            }
        }
    }

    fn msg_op(&mut self, own: &str, acts: usize) -> COp {
        let w = self.prof.msg.list();
        match self.r.weighted(&w) {
            0 => self.want(),
            1 => self.eternal(),
            2 => self.unknown(),
            3 => self.echo(),
            4 => self.burst(),
            5 => self.cast_op(acts),
            6 => self.fail(),
            7 => self.bye(),
            8 => self.make(own),
            9 => self.end(own),
            10 => self.hello(),
            11 => self.garbage(),
            12 => self.fuzz(),
            13 => self.flood(),
            14 => self.big(),
            _ => {
                if self.r.chance(1, 2) {
                    COp::Sync
                } else if self.r.chance(1, 12) {
                    COp::Sleep(*self.r.pick(&[100u32, 1100, 5000, 31_000, 100_000]))
                } else {
                    COp::Sleep(self.r.range(1, 5) as u32)
                }
            }
        }
    }

    ////////////////////////////////////////////////////////////////////////////

    fn bad_first(&mut self) -> COp {
        match self.r.below(12) {
            0 => self.garbage(),
            1 => self.fuzz(),
            2 => self.want(),
            3 => self.unknown(),
            4 => self.eternal(),
            5 | 6 => self.hello(),
            7 => self.msg(&[b"core1.client-make", b"ax", b"", b"", b""]),
            8 => self.msg(&[b"core1.client-end", b"a"]),
            9 => self.big(),
            10 => {
                // a hello that something precedes or is missing from
                let t = *self.r.pick(&["posix1.stdin-hello", "posix1.stdout-hello", "posix1.client-hello"]);
                let s = match self.secrets.len() {
                    0 => "in0".to_string(),
                    n => self.secrets[self.r.usize(n)].clone(),
                };
                let m = proto::encode(&[t, &s]);
                let pre: &[u8] = *self.r.pick(&[&b"x"[..], b"\n", b" ", b"\r\n", b"\0", b"\xef\xbb\xbf", b"{", b"}", b",", b"{0|}"]);
                let mut v = pre.to_vec();
                v.extend_from_slice(if self.r.chance(1, 4) { &m[1..] } else { &m });
                COp::Raw(B(v))
            }
            _ => COp::Hello(self.hello_kind(), self.some_secret()),
        }
    }

    fn client(&mut self, roots: usize, screens: usize, root_ids: &[String], acts: usize) -> ClientP {
        let prof = self.prof.clone();
        let mut c = ClientP::default();
        if self.r.chance(1, 2) {
            c.start = self.r.below(6) as u32;
        }
        let n = self.r.range(prof.ops.0, prof.ops.1);
        let role = self.r.weighted(&prof.roles);
        match role {
            0 | 1 => {
                let own;
                if role == 0 || self.ids.is_empty() {
                    let i = if roots == 0 { 0 } else { self.r.usize(roots) };
                    own = root_ids.get(i).cloned().unwrap_or_else(|| "a".into());
                    c.ops.push(COp::Hello(HelloKind::Client, Secret::Root(i)));
                } else {
                    let k = self.ids.len();
                    own = self.ids[self.r.usize(k)].clone();
                    let ms = self.r.range(1, 6);
                    c.ops.push(COp::Sleep(ms as u32));
                    c.ops.push(COp::Hello(HelloKind::Client, Secret::Made(own.clone())));
                }
                for _ in 0..n {
                    let op = self.msg_op(&own, acts);
                    c.ops.push(op);
                }
            }
            2 => {
                let i = if screens == 0 { 0 } else { self.r.usize(screens) };
                c.ops.push(COp::Hello(HelloKind::Stdin, Secret::In(i)));
                if self.pct(12) {
                    let op = match self.r.below(3) {
                        0 => COp::Fill(self.r.range(1, 40) as u32),
                        1 => COp::Raw(B::from(*self.r.pick(&["\n", "\r\n", "\0", " ", "{", "}", "\u{4}"]))),
                        _ => self.want(),
                    };
                    c.ops.push(op);
                }
            }
            3 => {
                let i = if screens == 0 { 0 } else { self.r.usize(screens) };
                c.ops.push(COp::Hello(HelloKind::Stdout, Secret::Out(i)));
                for _ in 0..n {
                    let op = match self.r.below(7) {
                        0 => COp::Sleep(self.r.range(1, 4) as u32),
                        1 => COp::Raw(B(self.some_msg())),
                        6 => {
                            // the same byte again and again
                            let n = *self.r.pick(&[1usize, 2, 64, 511, 512, 1000, 1023, 1024, 1025, 2048, 4096, 8192, 9000]);
                            COp::Raw(B(vec![*self.r.pick(b"\n\0 {},\xffx"); n]))
                        }
                        2 => COp::Fill(self.r.range(1, 10) as u32),
                        3 => self.garbage(),
                        4 if self.bulk => COp::Fill(self.r.range(10_000, 400_000) as u32),
                        _ => COp::Fill(self.r.range(prof.fill.0, prof.fill.1) as u32),
                    };
                    c.ops.push(op);
                }
            }
            4 => {
                let op = self.bad_first();
                c.ops.push(op);
                for _ in 0..self.r.below(4) {
                    let op = match self.r.below(3) {
                        0 => COp::Sync,
                        1 => self.bad_first(),
                        _ => self.msg_op("a", acts),
                    };
                    c.ops.push(op);
                }
            }
            _ => {
                if self.r.chance(1, 2) {
                    c.ops.push(COp::Raw(B(b"{2|1".to_vec())));
                }
            }
        }
        if self.pct(prof.stall) && c.ops.len() > 1 {
            let i = 1 + self.r.usize(c.ops.len() - 1);
            c.ops.insert(i, COp::PauseRead);
            let j = i + 1 + self.r.usize(c.ops.len() - i);
            if self.r.chance(1, 2) {
                c.ops.insert(j, COp::Sleep(self.r.range(1, 10) as u32));
            }
            if self.r.chance(2, 3) {
                let j = j.min(c.ops.len());
                c.ops.insert(j, COp::ResumeRead);
            }
        }
        if self.pct(20) {
            c.rd_max = *self.r.pick(&[1, 3, 17, 100, 1000]);
        }
        if self.pct(10) {
            c.rd_sleep = *self.r.pick(&[1, 5, 20]);
            c.rd_max = c.rd_max.max(50);
        }
        c.no_read = self.pct(prof.no_read);
        if self.pct(prof.leave) {
            // cut off in the middle of what it was sending
            if self.r.chance(1, 4) && !c.ops.is_empty() {
                let mut v = self.some_msg();
                let k = self.r.usize(v.len() + 1);
                v.truncate(k);
                c.ops.push(COp::Raw(B(v)));
            }
            if self.r.chance(1, 3) {
                c.ops.push(COp::Sync);
            }
            c.ops.push(if self.r.chance(1, 5) { COp::ShutdownWrite } else { COp::Close });
        }
        if self.pct(prof.sock_fault) {
            let at = self.fault_pos();
            let e = *self.r.pick(ERRNOS);
            c.read_err = Some((at, e));
        }
        if self.pct(prof.sock_fault) {
            let at = self.fault_pos();
            let e = *self.r.pick(ERRNOS);
            c.write_err = Some((at, e));
        }
        c
    }
    fn fault_pos(&mut self) -> u64 {
        match self.r.below(5) {
            0 => 0,
            1 => self.r.below(30),
            2 => self.r.below(2000),
            _ => self.r.below(200),
        }
    }

    fn act(&mut self, i: usize, n: usize) -> Act {
        let prof = self.prof.clone();
        let what = match self.r.weighted(&[3, prof.msg_acts, prof.stdin_acts, prof.kill]) {
            0 => What::Nothing,
            1 => {
                let k = if self.pct(prof.big_acts) { self.r.range(4, 20) } else { self.r.range(1, 3) };
                What::Msg((0..k).map(|_| self.size()).collect())
            }
            2 => {
                let big = self.pct(prof.big_acts);
                let k = self.r.range(1, 3);
                What::Stdin(
                    (0..k)
                        .map(|_| {
                            if big && self.bulk && self.r.chance(1, if prof.stdin_acts > prof.msg_acts { 2 } else { 4 }) {
                                self.r.range(40_000, 300_000) as u32
                            } else if big {
                                match self.r.below(4) {
                                    0 => self.r.range(4000, 4200) as u32,
                                    1 => self.r.range(8000, 9000) as u32,
                                    2 => self.r.range(1, 40_000) as u32,
                                    _ => self.r.range(1, 5000) as u32,
                                }
                            } else {
                                self.r.below(60) as u32
                            }
                        })
                        .collect(),
                )
            }
            _ => What::Kill,
        };
        let sel = match (&what, self.r.below(10)) {
            (What::Stdin(_), 0..=2) => Sel::Stdin,
            (What::Stdin(_), 3..=7) if !self.screens.is_empty() => {
                let k = self.screens.len();
                Sel::Screen(self.screens[self.r.usize(k)].clone())
            }
            (What::Msg(_), 0..=3) => Sel::Msgio,
            (_, 0 | 1) => Sel::Nth(self.r.range(1, 4), self.r.below(4)),
            (_, 2) => Sel::Handshake,
            (_, 3) => Sel::Msgio,
            (_, 4) => Sel::Stdout,
            (_, 5) => {
                let id = self.id("a");
                Sel::Client(id)
            }
            _ => Sel::All,
        };
        // rarely all of them get killed
        let sel = match (&what, sel) {
            (What::Kill, Sel::All) if !self.pct(30) => Sel::Nth(self.r.range(2, 4), self.r.below(4)),
            (_, s) => s,
        };
        let nest = if i + 1 < n && self.pct(35) { Some(self.r.range(i as u64 + 1, n as u64 - 1) as usize) } else { None };
        Act { sel, what, nest }
    }

    fn server(&mut self) -> ServerPlan {
        let prof = self.prof.clone();
        let mut p = ServerPlan { runs: 1, cycles: 0, ..Default::default() };
        let all_ids = ["a", "b", "ab", "abc", "a1", "Z", "aa", "b2b"];
        let n_roots = self.r.range(1, 4) as usize;
        let mut root_ids: Vec<String> = Vec::new();
        while root_ids.len() < n_roots {
            let id = self.r.pick(&all_ids).to_string();
            if !root_ids.contains(&id) {
                root_ids.push(id);
            }
        }
        if self.pct(12) {
            // one that is so long that its messages hardly fit
            let n = *self.r.pick(&[31usize, 60, 64, 100, 127, 200, 255, 300]);
            let base = root_ids[0].clone();
            let k = self.r.usize(n_roots);
            let id: String = base.chars().chain("x1Y".chars().cycle()).take(n).collect();
            if !root_ids.contains(&id) {
                root_ids[k] = id;
            }
        }
        let n_screens = self.r.range(1, 3) as usize;
        let names = ["scr", "scr1", "scr10", "SCR", "s\u{e9}", "x"];
        while self.screens.len() < n_screens {
            let s = self.r.pick(&names).to_string();
            if !self.screens.contains(&s) {
                self.screens.push(s);
            }
        }
        // the same text may be a client's and a screen's secret
        let shared = self.pct(20);
        let odd = self.pct(15);
        // hellos that do not fit into a receive buffer of the usual size
        let pad = if self.pct(12) { "s".repeat(*self.r.pick(&[900usize, 1000, 1500, 2500, 4060, 6000])) } else { String::new() };
        for (i, id) in root_ids.iter().enumerate() {
            let secret = if shared && i == 0 {
                "shared".to_string()
            } else if odd && i == 0 {
                self.r.pick(&["", "{1|4:want,}", "\u{e9}\u{4e2d}", "a b", "0"]).to_string()
            } else {
                format!("root{i}{pad}")
            };
            let scr = |g: &mut G| if g.r.chance(1, 2) { Some(g.screens[0].clone()) } else { None };
            let (a, b, c) = (scr(self), scr(self), scr(self));
            self.secrets.push(secret.clone());
            p.roots.push(ClientReg { id: id.clone(), stdin: a, stdout: b, stderr: c, secret });
        }
        for (i, id) in self.screens.clone().iter().enumerate() {
            let a = if shared && i == 0 { "shared".to_string() } else { format!("in{i}{pad}") };
            let b = if shared && i == 0 { "shared".to_string() } else { format!("out{i}{pad}") };
            self.secrets.push(a.clone());
            self.secrets.push(b.clone());
            p.screens.push(ScreenReg { id: id.clone(), stdin_secret: a, stdout_secret: b });
        }
        self.ids = root_ids.clone();
        let n_acts = self.r.range(prof.acts.0, prof.acts.1) as usize;
        for i in 0..n_acts {
            let a = self.act(i, n_acts);
            p.acts.push(a);
        }
        let mut n = self.r.range(prof.clients.0, prof.clients.1);
        let crowd = prof.cycles == 0 && self.pct(3);
        if crowd {
            n = self.r.range(10, 40);
            if self.r.chance(1, 16) {
                n = if self.r.chance(1, 2) { self.r.range(70, 160) } else { self.r.range(280, 420) };
                self.prof.leave /= 4;
            }
            self.prof.ops = (0, 2);
            self.prof.msg.flood = 0;
            self.prof.msg.big = 0;
            self.prof.msg.burst /= 2;
            self.prof.fill = (1, 300);
            self.bulk = false;
        }
        for _ in 0..n {
            let c = self.client(n_roots, n_screens, &root_ids, n_acts);
            p.clients.push(c);
        }
        if prof.cycles == 0 && self.r.chance(1, 400) {
            // very many short connections while others stay
            let k = self.r.range(120, 280);
            let every = self.r.range(1, 8);
            for i in 0..k {
                let mut c = ClientP { start: 1 + (i / every) as u32, ..Default::default() };
                match self.r.below(6) {
                    0 => c.ops.push(COp::Raw(B::from("{1|4:want,}"))),
                    1 => {
                        let i = self.r.usize(n_roots);
                        c.ops.push(COp::Hello(HelloKind::Client, Secret::Root(i)));
                    }
                    2 => c.ops.push(COp::Raw(B::from("{2|"))),
                    _ => {}
                }
                if self.r.chance(1, 3) {
                    c.ops.push(COp::Sync);
                }
                c.ops.push(COp::Close);
                p.clients.push(c);
            }
            // somebody who has been there all the time and does something in the end
            for c in p.clients.iter_mut().take(n as usize) {
                if matches!(c.ops.first(), Some(COp::Hello(..))) && !matches!(c.ops.last(), Some(COp::Close)) {
                    c.ops.push(COp::Sleep(400));
                    c.ops.push(COp::Msg(vec![B::from("want"), B::from("core1")]));
                }
            }
        }
        // mostly let everybody have a secret of their own
        if self.pct(70) {
            let (mut k, mut i, mut o) = (0, 0, 0);
            for c in p.clients.iter_mut() {
                for op in c.ops.iter_mut().take(1) {
                    match op {
                        COp::Hello(HelloKind::Client, s @ Secret::Root(_)) => {
                            *s = Secret::Root(k);
                            k += 1;
                        }
                        COp::Hello(HelloKind::Stdin, s @ Secret::In(_)) => {
                            *s = Secret::In(i);
                            i += 1;
                        }
                        COp::Hello(HelloKind::Stdout, s @ Secret::Out(_)) => {
                            *s = Secret::Out(o);
                            o += 1;
                        }
                        _ => {}
                    }
                }
            }
            while p.roots.len() < k {
                let i = p.roots.len();
                p.roots.push(ClientReg { id: format!("q{i}"), stdin: None, stdout: None, stderr: None, secret: format!("root{i}") });
            }
            while p.screens.len() < i.max(o) {
                let i = p.screens.len();
                p.screens.push(ScreenReg { id: format!("more{i}"), stdin_secret: format!("in{i}"), stdout_secret: format!("out{i}") });
            }
        }
        if crowd && self.pct(60) {
            // the whole crowd, or a good part of it, ends at once
            let at = self.r.range(8, 40) as u32;
            if self.r.chance(1, 2) {
                let sel = match self.r.below(5) {
                    0 => Sel::Handshake,
                    1 => Sel::Msgio,
                    2 => Sel::Nth(2, self.r.below(2)),
                    3 => Sel::Nth(3, self.r.below(3)),
                    _ => Sel::All,
                };
                p.acts.push(Act { sel, what: What::Kill, nest: None });
                let k = p.acts.len() - 1;
                p.apps.push(AppP { start: at, ops: vec![AOp::Cast(k)] });
            } else {
                // most of them are clients below one that ends them
                let sub = self.r.pick(&["Qq", "Qqq7", "QQ"]).to_string();
                for (i, r) in p.roots.iter_mut().enumerate().skip(n_roots) {
                    r.id = format!("{sub}{}", if i == n_roots { String::new() } else { format!("w{i}") });
                }
                p.roots.push(ClientReg { id: "Q".into(), stdin: None, stdout: None, stderr: None, secret: "boss".into() });
                let mut c = ClientP { start: at, ..Default::default() };
                c.ops.push(COp::Hello(HelloKind::Client, Secret::Root(p.roots.len() - 1)));
                c.ops.push(COp::Msg(vec![B::from("core1.client-end"), B::from(sub)]));
                c.ops.push(COp::Msg(vec![B::from("want"), B::from("core1")]));
                p.clients.push(c);
            }
        }
        if self.pct(prof.apps) && n_acts > 0 {
            for _ in 0..self.r.range(1, 3) {
                let mut a = AppP { start: self.r.below(6) as u32, ops: Vec::new() };
                for _ in 0..self.r.range(prof.app_ops.0, prof.app_ops.1) {
                    let op = match self.r.below(8) {
                        0 if self.r.chance(1, 20) => AOp::Sleep(*self.r.pick(&[100u32, 1100, 5000, 31_000, 100_000])),
                        0 => AOp::Sleep(self.r.range(1, 4) as u32),
                        1 => AOp::Yield,
                        _ => AOp::Cast(self.r.usize(n_acts)),
                    };
                    a.ops.push(op);
                }
                if self.pct(4) {
                    let k = self.r.usize(n_acts);
                    for _ in 0..*self.r.pick(&[20u32, 40, 80]) {
                        a.ops.push(AOp::Cast(k));
                    }
                }
                p.apps.push(a);
            }
        }
        if n <= 60 && prof.cycles == 0 && self.r.chance(1, prof.chain) {
            // broadcasts that enqueue broadcasts that enqueue broadcasts
            let from = p.acts.len();
            let depth = self.r.range(60, 400) as usize;
            for i in 0..depth {
                let what = if self.r.chance(1, 20) { What::Msg(vec![self.r.range(20, 90) as u32]) } else { What::Nothing };
                p.acts.push(Act { sel: Sel::All, what, nest: if i + 1 < depth { Some(from + i + 1) } else { None } });
            }
            p.apps.push(AppP { start: self.r.below(10) as u32, ops: vec![AOp::Cast(from)] });
        }
        if self.pct(prof.trigs) && n_acts > 0 {
            let all = [
                Trig::Opened, Trig::Closed, Trig::IoError, Trig::Discarded, Trig::Authorize, Trig::Register, Trig::Unregister, Trig::Receive,
                Trig::HasClients,
            ];
            for _ in 0..self.r.range(1, 3) {
                let t = *self.r.pick(&all);
                p.trigs.push((t, self.r.usize(n_acts), self.r.range(1, 3) as u32));
            }
        }
        if self.pct(prof.accept_err) {
            let k = self.r.below(n + 1) as usize;
            let e = *self.r.pick(&[libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::ECONNABORTED, libc::EIO, libc::EPERM]);
            p.accept_errs.push((k, e));
            if self.pct(25) {
                p.unlink_at = Some(self.r.below(5) as u32);
            }
        }
        if self.pct(prof.bind_err) {
            p.bind_errs.push(*self.r.pick(&[libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EADDRINUSE, libc::EMFILE]));
        }
        if self.pct(prof.path_taken) {
            match self.r.below(3) {
                0 => p.no_dir = true,
                k => p.path_taken = k as u32,
            }
        }
        if self.pct(prof.runs) {
            p.runs = self.r.range(2, 3) as u32;
        }
        if self.pct(prof.shutdown) {
            match self.r.below(8) {
                0 => p.acts.push(Act { sel: Sel::All, what: What::Shutdown, nest: None }),
                1 => {
                    if let Some(c) = p.clients.iter_mut().find(|c| matches!(c.ops.first(), Some(COp::Hello(HelloKind::Client, _)))) {
                        let i = 1 + self.r.usize(c.ops.len());
                        c.ops.insert(i.min(c.ops.len()), COp::Msg(vec![B::from("sim1.down")]));
                    }
                }
                2 => {
                    // from within a callback
                    p.acts.push(Act { sel: Sel::All, what: What::Shutdown, nest: None });
                    let t = *self.r.pick(&[Trig::Opened, Trig::Closed, Trig::Authorize, Trig::Receive, Trig::Discarded]);
                    p.trigs.push((t, p.acts.len() - 1, 1));
                }
                _ => {
                    let ms = self.r.below(8) as u32;
                    let mut ops = vec![AOp::Shutdown];
                    if self.r.chance(1, 4) {
                        ops.push(AOp::Yield);
                        ops.push(AOp::Shutdown);
                    }
                    if self.r.chance(1, 4) && n_acts > 0 {
                        ops.push(AOp::Cast(self.r.usize(n_acts)));
                    }
                    if self.r.chance(1, 6) {
                        p.apps.push(AppP { start: ms, ops: vec![AOp::Shutdown] });
                    }
                    p.apps.push(AppP { start: ms, ops });
                }
            }
            if p.acts.last().is_some_and(|a| a.what == What::Shutdown) && p.apps.is_empty() && p.trigs.is_empty() {
                let k = p.acts.len() - 1;
                p.apps.push(AppP { start: self.r.below(6) as u32, ops: vec![AOp::Cast(k)] });
            }
        }
        if self.pct(prof.pre_shutdown) {
            p.pre_shutdown = self.r.range(1, 2) as u32;
        }
        let intrude = prof.intrude;
        p.intrude = self.pct(intrude);
        p.ending = match self.r.below(4) {
            0 => Some(Ending::CloseThenShutdown),
            1 => Some(Ending::Shutdown),
            _ => None,
        };
        if crowd && n > 60 {
            // what everybody receives must not be much
            for a in p.acts.iter_mut() {
                if let What::Msg(v) | What::Stdin(v) = &mut a.what {
                    v.truncate(1);
                    v.iter_mut().for_each(|n| *n = (*n).min(200));
                }
            }
            for a in p.apps.iter_mut() {
                a.ops.truncate(10);
            }
            for c in p.clients.iter_mut() {
                for o in c.ops.iter_mut() {
                    if let COp::Flood(_, k) = o {
                        *k = (*k).min(10);
                    }
                }
            }
        }
        if crowd && n > 60 && self.r.chance(1, 2) {
            // everybody stays until the end
            for c in p.clients.iter_mut() {
                c.ops.retain(|o| !matches!(o, COp::Close));
            }
            for a in p.apps.iter_mut() {
                a.ops.retain(|o| !matches!(o, AOp::Shutdown));
            }
            for a in p.acts.iter_mut().filter(|a| matches!(a.what, What::Shutdown | What::Kill)) {
                a.what = What::Nothing;
            }
            p.pre_shutdown = 0;
            p.ending = Some(Ending::Shutdown);
            if self.r.chance(1, 2) {
                p.apps.push(AppP { start: 500, ops: vec![AOp::Shutdown] });
            }
        }
        p.sim_version = *self.r.pick(&[0, 1, 9, 42, 65535]);
        if self.pct(prof.cycles) {
            p.cycles = self.r.range(10, 14) as u32;
            if self.pct(3) {
                p.cycles = 70;
            }
            if self.pct(40) {
                self.residents(&mut p);
            }
        }
        p
    }

    /// Some who stay connected while the others come and go. What is under way to them never is much.
    fn residents(&mut self, p: &mut ServerPlan) {
        p.apps.clear();
        p.trigs.clear();
        p.acts.clear();
        for _ in 0..self.r.range(1, 2) {
            let i = p.roots.len();
            let id = if i % 2 == 0 { "RRx" } else { "SSy" };
            if p.roots.iter().any(|r| r.id == id) {
                continue;
            }
            p.roots.push(ClientReg { id: id.into(), stdin: None, stdout: None, stderr: None, secret: format!("stay{i}") });
            let mut ops = Vec::new();
            for _ in 0..self.r.range(1, 6) {
                let msg = |items: &[&str]| COp::Msg(items.iter().map(|x| B::from(*x)).collect());
                let small = self.r.range(1, 6) as u32;
                let op = match self.r.below(9) {
                    0 => msg(&["want", "core1"]),
                    1 => msg(&["want", "sim1"]),
                    2 => msg(&["want", "nope7"]),
                    3 => msg(&["foo1.bar", "baz"]),
                    4 => COp::Raw(B::from("garbage}{0|")),
                    5 => {
                        let made = format!("{id}1");
                        ops.push(msg(&["core1.client-make", &made, "", "", ""]));
                        msg(&["core1.client-end", &made])
                    }
                    6 => COp::Flood(vec![B::from("want"), B::from("core1")], small),
                    7 => COp::Raw(B::from("{2|4:want,5:core1,}{2|4:want,4:sim1,}")),
                    _ => COp::Raw(B::from("{x")),
                };
                ops.push(op);
                if self.r.chance(1, 2) {
                    ops.push(COp::Sync);
                }
            }
            if self.r.chance(1, 5) {
                // there is half a message left each time
                let junk = "g".repeat(*self.r.pick(&[0usize, 10, 600, 1000]));
                ops = vec![COp::Raw(B::from(format!("5:core1,}}{junk}{{2|4:want,").as_str()))];
            }
            let cast = if self.r.chance(1, 2) {
                p.acts.push(Act { sel: Sel::Client(id.into()), what: What::Msg(vec![self.r.range(20, 90) as u32]), nest: None });
                Some(p.acts.len() - 1)
            } else {
                None
            };
            p.residents.push(Resident { hello: HelloKind::Client, secret: Secret::Root(i), ops, cast });
        }
        if self.r.chance(1, 2) {
            let i = p.screens.len();
            p.screens.push(ScreenReg { id: "stay".into(), stdin_secret: "stayin".into(), stdout_secret: "stayout".into() });
            let n = self.r.range(1, 200) as u32;
            let small = self.r.range(1, 3) as usize;
            p.acts.push(Act { sel: Sel::Screen("stay".into()), what: What::Stdin((0..small).map(|k| n + k as u32).collect()), nest: None });
            p.residents.push(Resident { hello: HelloKind::Stdin, secret: Secret::In(i), ops: Vec::new(), cast: Some(p.acts.len() - 1) });
            if self.r.chance(1, 2) {
                let ops = vec![COp::Fill(self.r.range(1, 300) as u32), COp::Sync, COp::Fill(self.r.range(1, 50) as u32)];
                p.residents.push(Resident { hello: HelloKind::Stdout, secret: Secret::Out(i), ops, cast: None });
            }
        }
    }

    ////////////////////////////////////////////////////////////////////////////
    // clients that are built from the library

    fn index(&mut self) -> u32 {
        match self.r.below(10) {
            0..=3 => self.r.below(3) as u32,
            4..=7 => *self.r.pick(&[0u32, 1, 8, 9, 10, 34, 35, 36, 37, 58, 59, 60, 61, 62, 119, 120, 121, 122, 123, 181, 182, 183, 243, 244]),
            8 => self.r.below(200) as u32,
            _ => *self.r.pick(&[3000u32, 20_000, 54_000, 61_000, u32::MAX - 1, u32::MAX]),
        }
    }
    fn lname(&mut self, up: &LName) -> LName {
        let mut n = up.clone();
        let i = self.index();
        match self.r.below(10) {
            0 | 1 => n.path.push(Suf::Local(i)),
            2 => n.path.push(Suf::Job(i)),
            3 if self.r.chance(1, 3) => n.path.push(Suf::Own),
            _ => {
                let mut j = self.index();
                if i > 2000 && j > 2000 && self.r.chance(7, 8) {
                    j %= 70;
                }
                n.path.push(Suf::Child(i, j));
                if self.pct(12) {
                    return self.lname(&n);
                }
            }
        }
        n
    }
    fn integer(&mut self) -> (u8, String) {
        let t = self.r.below(12) as u8;
        let (lo, hi): (i128, u128) = match t {
            0 => (0, u8::MAX as u128),
            1 => (i8::MIN as i128, i8::MAX as u128),
            2 => (0, u16::MAX as u128),
            3 => (i16::MIN as i128, i16::MAX as u128),
            4 => (0, u32::MAX as u128),
            5 => (i32::MIN as i128, i32::MAX as u128),
            6 | 10 => (0, u64::MAX as u128),
            7 | 11 => (i64::MIN as i128, i64::MAX as u128),
            8 => (0, u128::MAX),
            _ => (i128::MIN, i128::MAX as u128),
        };
        let v = match self.r.below(8) {
            0 => lo.to_string(),
            1 => hi.to_string(),
            2 if lo < 0 => (lo + self.r.below(3) as i128).to_string(),
            2 => self.r.below(3).to_string(),
            3 => (hi - self.r.below(3) as u128).to_string(),
            4 => {
                // at the boundary of a number of digits
                let p = 10u128.pow(self.r.below(39) as u32);
                let v = if self.r.chance(1, 2) { p } else { p - 1 };
                if lo < 0 && self.r.chance(1, 2) && v <= hi { format!("-{}", v.max(1)) } else { v.min(hi).to_string() }
            }
            5 if lo < 0 => format!("-{}", 1 + self.r.below(100)),
            _ => {
                let v = (u128::from(self.r.u64()) << 64 | u128::from(self.r.u64())) >> self.r.below(128);
                v.min(hi).to_string()
            }
        };
        (t, v)
    }
    fn larg(&mut self, own: &LName) -> LArg {
        match self.r.below(16) {
            0 => LArg::Bool(self.r.chance(1, 2)),
            1 | 2 => {
                let (t, v) = self.integer();
                LArg::Int(t, v)
            }
            3 => {
                // not the way that an integer is written, or out of range
                let v = match self.r.below(12) {
                    0 => "+5".into(),
                    1 => "-0".into(),
                    2 => "-05".into(),
                    3 => "007".into(),
                    4 => "-".into(),
                    5 => " 1".into(),
                    6 => "1 ".into(),
                    7 => self.r.pick(&["256", "-129", "65536", "128", "-32769", "4294967296", "18446744073709551616", "-1", "-9223372036854775809"]).to_string(),
                    8 => "340282366920938463463374607431768211456".into(),
                    9 => "\u{663}".into(),
                    10 => "00".into(),
                    _ => format!("+{}", self.integer().1),
                };
                LArg::Str(v)
            }
            4 => {
                let v = match self.r.below(8) {
                    0 => format!("{}.+5", self.module()),
                    1 => format!("{}.-0", self.module()),
                    2 => format!("{}.07", self.module()),
                    3 => format!("{}.65536", self.module()),
                    4 => format!("{}.", self.module()),
                    5 => format!("{}.0.0", self.module()),
                    6 => format!("{}.a", self.r.pick(BAD_MODULES)),
                    _ => format!(".{}", self.module()),
                };
                LArg::Str(v)
            }
            5 => LArg::Str(self.r.pick(&["t", "f", "T", "true", "", "want", "nope", "have", "h\u{e9}"]).to_string()),
            6 => LArg::Bytes(self.arg()),
            7 if self.r.chance(1, 12) => LArg::Opt(Some("o".repeat(self.r.range(900, 3000) as usize))),
            7 => LArg::Opt(if self.r.chance(1, 3) { None } else { Some(self.r.pick(&["", "x", "scr", "s\u{e9}"]).to_string()) }),
            8 => LArg::Path(match self.r.below(3) {
                0 => B(b"/tmp/\xff\xfe x".to_vec()),
                1 => B(Vec::new()),
                _ => self.arg(),
            }),
            9 => LArg::Module(if self.r.chance(1, 4) { self.r.pick(BAD_MODULES).to_string() } else { self.module() }),
            10 => {
                let v = *self.r.pick(&[0u16, 1, 9, 10, 99, 100, 999, 1000, 9999, 10_000, 65_535]);
                LArg::Version(self.module(), v)
            }
            11 => {
                let t = match self.r.below(8) {
                    0 => "want".into(),
                    1 => "have".into(),
                    2 => "nope".into(),
                    3 => "wants".into(),
                    4 => format!("{}.", self.module()),
                    5 => format!("{}.a.b", self.module()),
                    _ => format!("{}.{}", self.module(), self.r.pick(&["foo", "a-b_c", "-x", "x9", "9x", "_"])),
                };
                LArg::Type(t)
            }
            12 => {
                let n = *self.r.pick(&[1usize, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 127, 128, 200, 255, 256]);
                let s = if self.r.chance(1, 2) { self.long_ident(n) } else { self.r.pick(&["a", "-a", "a-", "_", "A0", "0", "", "a b", "a\u{e9}", "a.b", "0a"]).to_string() };
                LArg::Ident(s)
            }
            13 | 14 => LArg::Name(self.lname(own)),
            _ => {
                let v = *self.r.pick(&[u32::MAX, u32::MAX - 1, u32::MAX - 61, 1 << 31, 1 << 24, 70_000]);
                match self.r.below(3) {
                    0 => LArg::Huge(Suf::Local(v)),
                    1 => LArg::Huge(Suf::Job(v)),
                    _ if self.r.chance(1, 2) => LArg::Huge(Suf::Child(v, 0)),
                    _ => LArg::Huge(Suf::Child(1, v)),
                }
            }
        }
    }
    /// What somebody sends who is `own`; the names of others are remembered in `made`.
    fn lib_op(&mut self, own: &LName, made: &mut Vec<LName>) -> COp {
        let tight = if self.r.chance(1, 2) { 0 } else { self.r.below(40) as u32 };
        let mine: Vec<LName> = made.iter().filter(|n| n.root == own.root && n.path.starts_with(&own.path)).cloned().collect();
        let known = |g: &mut G| if mine.is_empty() || g.pct(25) { None } else { Some(mine[g.r.usize(mine.len())].clone()) };
        let w = self.prof.lib;
        match self.r.weighted(&w) {
            0 => {
                let n = match known(self) {
                    // once more
                    Some(n) if self.pct(20) => n,
                    // one that might be taken for it
                    Some(mut n) if self.pct(12) => {
                        let d = *self.r.pick(&[1u32, 10, 26, 36, 60, 61, 62, 122, 124, 1 << 8, 61 * 61, 62 * 62, 1 << 15, 1 << 16, 1 << 31]);
                        let x = |g: &mut G, i: u32| if g.r.chance(1, 2) { i.wrapping_add(d) } else { i.wrapping_sub(d) };
                        if let Some(l) = n.path.last_mut() {
                            *l = match *l {
                                Suf::Own => Suf::Own,
                                Suf::Local(i) => Suf::Local(x(self, i)),
                                Suf::Job(i) => Suf::Job(x(self, i)),
                                Suf::Child(i, j) if self.r.chance(1, 2) => Suf::Child(x(self, i), j),
                                Suf::Child(i, j) => Suf::Child(i, x(self, j)),
                            };
                        }
                        n
                    }
                    // another one in the same job
                    Some(mut n) if self.pct(40) => {
                        let j = self.index();
                        if let Some(Suf::Child(_, k)) = n.path.last_mut() {
                            *k = if j < 300 || self.pct(20) { j } else { j % 61 };
                        }
                        n
                    }
                    _ => self.lname(own),
                };
                if made.len() < 40 {
                    made.push(n.clone());
                }
                let scr = |g: &mut G| match g.r.below(4) {
                    0 if !g.screens.is_empty() => {
                        let k = g.screens.len();
                        Some(g.screens[g.r.usize(k)].clone())
                    }
                    1 => Some("s\u{e9}".to_string()),
                    _ => None,
                };
                let (a, b, c) = (scr(self), scr(self), scr(self));
                COp::Lib(LMsg::Make(n, a, b, c), tight)
            }
            1 => {
                let n = match known(self) {
                    // the whole job
                    Some(mut n) if self.pct(60) => {
                        if let Some(Suf::Child(i, _)) = n.path.last().copied() {
                            n.path.pop();
                            n.path.push(Suf::Job(i));
                        }
                        n
                    }
                    Some(n) => n,
                    None => self.lname(own),
                };
                COp::Lib(LMsg::End(n), tight)
            }
            2 if self.r.chance(1, 5) => {
                let v = *self.r.pick(&[0u16, 1, 9, 10, 99, 100, 255, 256, 999, 1000, 9999, 10_000, 32_768, 65_535]);
                let m = if self.r.chance(1, 3) {
                    let t = *self.r.pick(&["want", "have", "nope", "core1.client-make", "sim1.x", "foo"]);
                    LMsg::Nope(t.into())
                } else {
                    LMsg::Have(self.module(), if self.r.chance(1, 3) { None } else { Some(v) })
                };
                COp::Lib(m, tight)
            }
            2 => {
                let m = if self.r.chance(1, 4) {
                    self.r.pick(BAD_MODULES).to_string()
                } else if self.r.chance(1, 6) {
                    let n = if self.r.chance(1, 2) { 1024 - 24 + self.r.range(0, 12) as usize } else { self.r.range(1, 300) as usize };
                    format!("{}1", self.long_ident(n))
                } else {
                    self.module()
                };
                COp::Lib(LMsg::Want(m), tight)
            }
            3 => {
                let k = if self.pct(6) { self.r.range(6, 120) } else { self.r.below(6) };
                let mut a: Vec<LArg> = (0..k).map(|_| self.larg(own)).collect();
                if k > 20 {
                    a.retain(|a| !matches!(a, LArg::Huge(_)));
                }
                if self.pct(8) {
                    let n = self.r.range(900, 1010) as usize;
                    a = vec![LArg::Bytes(self.bytes(n))];
                }
                let ty = if self.pct(30) {
                    *self.r.pick(&[
                        "want", "have", "nope", "core1.client-make", "core1.client-end", "core1.client-new", "posix1.client-hello", "posix1.stdin-hello",
                        "posix1.stdout-hello", "posix1.server-hello", "posix1.parent-hello",
                    ])
                } else {
                    "sim1.echo"
                };
                if ty != "sim1.echo" && self.r.chance(1, 2) {
                    a.truncate(1);
                }
                COp::Lib(LMsg::Any(ty.into(), a), tight)
            }
            4 => {
                let s = if self.r.chance(1, 2) { Secret::Named(self.lname(own)) } else { self.some_secret() };
                COp::Lib(LMsg::Hello(self.hello_kind(), s), tight)
            }
            _ => {
                if self.r.chance(1, 2) {
                    COp::Sync
                } else {
                    COp::Sleep(self.r.range(1, 5) as u32)
                }
            }
        }
    }
    fn shells(&mut self, p: &mut ServerPlan) {
        let knobs = |g: &mut G, c: &mut ClientP| {
            c.lib = !g.pct(5);
            if g.pct(20) {
                c.rd_max = *g.r.pick(&[1, 3, 17, 100, 1000]);
            }
            if g.pct(5) {
                c.rd_sleep = *g.r.pick(&[1, 5]);
                c.rd_max = c.rd_max.max(50);
            }
            if g.pct(g.prof.leave / 2) {
                c.ops.push(if g.r.chance(1, 5) { COp::ShutdownWrite } else { COp::Close });
            }
            if g.pct(g.prof.sock_fault) {
                let e = *g.r.pick(ERRNOS);
                c.write_err = Some((g.fault_pos(), e));
            }
        };
        let n = self.r.range(1, 3) as usize;
        let long = self.pct(10);
        let first = p.roots.len();
        let mut made = Vec::new();
        for i in 0..n {
            let mut id = ["S", "T7", "Uuz"][i].to_string();
            if long && i == 0 {
                id.push_str(&"z0z".repeat(self.r.range(5, 90) as usize));
            }
            let secret = format!("shell{i}");
            p.roots.push(ClientReg { id: id.clone(), stdin: None, stdout: self.screens.first().cloned(), stderr: None, secret: secret.clone() });
            self.secrets.push(secret);
            let own = LName { root: id, path: Vec::new() };
            let mut c = ClientP { start: self.r.below(3) as u32, ..Default::default() };
            let s = Secret::Root(first + i);
            let cuts = |g: &mut G| (0..g.r.below(5)).map(|_| *g.r.pick(&[0u32, 1, 2, 5, 20, 40])).collect::<Vec<_>>();
            if self.r.chance(1, 2) {
                c.announced = Some((s.clone(), cuts(self)));
            }
            c.ops.push(COp::Lib(LMsg::Hello(HelloKind::Client, s), self.r.below(40) as u32));
            for _ in 0..self.r.range(2, 12) {
                let op = self.lib_op(&own, &mut made);
                c.ops.push(op);
            }
            if self.pct(15) {
                // one after the other
                let (i, k) = (self.index().min(300), self.r.range(5, 70) as u32);
                let how = self.r.below(3);
                for n in i..i + k {
                    let x = match how {
                        0 => Suf::Child(n, 0),
                        1 => Suf::Child(i, n),
                        _ => Suf::Local(n),
                    };
                    let n = LName { root: own.root.clone(), path: vec![x] };
                    c.ops.push(COp::Lib(LMsg::Make(n, None, None, None), 0));
                }
                if how == 0 {
                    let n = LName { root: own.root.clone(), path: vec![Suf::Job(i + self.r.below(k.into()) as u32)] };
                    c.ops.push(COp::Lib(LMsg::End(n), 0));
                }
            }
            if self.r.chance(1, 2) {
                // jobs end later
                c.ops.push(COp::Sleep(self.r.range(2, 10) as u32));
                for _ in 0..self.r.range(1, 4) {
                    let op = self.lib_op(&own, &mut made);
                    c.ops.push(op);
                }
            }
            knobs(self, &mut c);
            p.clients.push(c);
        }
        // what they have started
        for _ in 0..self.r.below(5) {
            if made.is_empty() {
                break;
            }
            let own = made[self.r.usize(made.len())].clone();
            if !matches!(own.path.last(), Some(Suf::Child(..) | Suf::Local(_))) && !self.pct(5) {
                continue;
            }
            let mut c = ClientP { start: self.r.range(1, 12) as u32, ..Default::default() };
            let s = Secret::Named(own.clone());
            if self.r.chance(1, 2) {
                let k = self.r.below(4);
                c.announced = Some((s.clone(), (0..k).map(|_| *self.r.pick(&[0u32, 1, 2, 5, 20, 40])).collect()));
            }
            c.ops.push(COp::Lib(LMsg::Hello(HelloKind::Client, s), 0));
            let leaf = !matches!(own.path.last(), Some(Suf::Child(..)));
            for _ in 0..self.r.range(1, 5) {
                // whoever is within a job or process has no names for anybody below
                let op = if leaf { COp::Lib(LMsg::Want(self.module()), 0) } else { self.lib_op(&own, &mut made) };
                c.ops.push(op);
            }
            knobs(self, &mut c);
            p.clients.push(c);
        }
        // and terminals
        for _ in 0..self.r.below(3) {
            let i = self.r.usize(p.screens.len());
            let mut c = ClientP { start: self.r.below(4) as u32, ..Default::default() };
            let tight = self.r.below(30) as u32;
            if self.r.chance(1, 2) {
                c.ops.push(COp::Lib(LMsg::Hello(HelloKind::Stdin, Secret::In(i)), tight));
            } else {
                c.ops.push(COp::Lib(LMsg::Hello(HelloKind::Stdout, Secret::Out(i)), tight));
                c.ops.push(COp::Fill(self.r.range(1, 300) as u32));
            }
            p.clients.push(c);
        }
    }

    ////////////////////////////////////////////////////////////////////////////

    fn discover(&mut self) -> DiscoverPlan {
        let hello = |path: &[u8], sec: &[u8]| proto::encode(&[b"posix1.parent-hello", sec, path]);
        let mut path = self.r.pick(&[&b"/run/vt6/1"[..], b"", b"/tmp/x y", b"/\xff\xfe", b"relative", b"/a{b}c|,"]).to_vec();
        if self.r.chance(1, 4) {
            let n = self.r.range(100, 1100) as usize;
            path = vec![b'p'; n];
        }
        let sec = self.r.pick(&[&b"abc"[..], b"", b"a", b"a\xff", b"ab-c", b"{1|4:want,}", b"12"]).to_vec();
        let mut data = match self.r.below(10) {
            0 => self.some_msg(),
            1 => {
                let n = self.r.range(0, 60) as usize;
                self.bytes(n).0
            }
            2 => {
                let mut v = hello(&path, &sec);
                let i = self.r.usize(v.len());
                let c = *self.r.pick(b"{}|:,019a\xff");
                match self.r.below(3) {
                    0 => v[i] = c,
                    1 => v.insert(i, c),
                    _ => {
                        v.remove(i);
                    }
                }
                v
            }
            3 => {
                let mut v = hello(&path, &sec);
                let k = self.r.usize(v.len());
                v.truncate(k);
                v
            }
            4 => proto::encode(&[b"posix1.parent-hello".to_vec(), sec.clone()]),
            5 => {
                // around the limit
                let n = 1024 - 42 - sec.len() + self.r.below(20) as usize;
                hello(&vec![b'q'; n], &sec)
            }
            _ => hello(&path, &sec),
        };
        if self.r.chance(1, 4) {
            let n = self.r.below(40) as usize;
            let x = if self.r.chance(1, 2) { self.bytes(n).0 } else { self.some_msg() };
            data.extend(x);
        }
        let mut cuts = Vec::new();
        match self.r.below(6) {
            0 => {}
            4 => cuts = vec![self.r.range(1, 24) as u32],
            5 => cuts = vec![self.r.range(1, 1100) as u32, self.r.range(1, 1100) as u32],
            1 => cuts = vec![1; data.len()],
            2 => {
                // right around the end of the announcement
                let k = hello(&path, &sec).len() as u32;
                cuts = vec![(k + self.r.below(3) as u32).saturating_sub(1).max(1), 1, 1];
            }
            _ => {
                let mut left = data.len();
                while left > 0 {
                    let m = left.min(1 + self.r.below(60) as usize) as u64;
                    let k = self.r.range(1, m) as usize;
                    cuts.push(k as u32);
                    left -= k;
                }
            }
        }
        let mut errs = Vec::new();
        let pieces = cuts.len() as u64 + 1;
        if self.pct(50) {
            for _ in 0..self.r.range(1, 4) {
                errs.push((self.r.below(pieces + 1) as u32, libc::EINTR));
            }
        }
        if self.pct(25) {
            errs.push((self.r.below(pieces + 1) as u32, *self.r.pick(&[libc::EIO, libc::EISDIR, libc::EAGAIN, libc::ECONNRESET, libc::ETIMEDOUT, libc::EBADF, libc::EINVAL, libc::ENOENT])));
        }
        if self.pct(6) {
            errs.push((0, *self.r.pick(&[libc::EINVAL, libc::EBADF])));
        }
        errs.sort();
        DiscoverPlan { exists: !self.pct(8), data: B(data), cuts, errs }
    }

    fn creds(&mut self) -> CredsPlan {
        let n = if self.pct(3) { self.r.range(60, 150) } else { self.r.range(1, 6) };
        let gens: Vec<bool> = (0..n).map(|_| self.r.chance(1, 2)).collect();
        let rare = |g: &mut G| if g.r.chance(1, 3) { *g.r.pick(&[30, 100, 200]) } else { 0 };
        let (short, eintr) = (rare(self), rare(self));
        let fail = if self.pct(25) { Some((self.r.below(8), libc::EIO)) } else { None };
        let flips = (0..self.r.range(4, 24)).map(|_| (self.r.below(100) as u32, self.r.below(1000) as u32)).collect();
        let subs = (0..self.r.range(0, 24)).map(|_| (self.r.below(100) as u32, self.r.below(1000) as u32, self.r.range(1, 255) as u8)).collect();
        let swaps = (0..self.r.range(0, 6)).map(|_| (self.r.below(100) as u32, self.r.below(1000) as u32, self.r.below(1000) as u32)).collect();
        let fixed = if self.pct(15) {
            let n = *self.r.pick(&[1usize, 3, 24, 7]);
            let v = if self.r.chance(1, 3) { vec![*self.r.pick(&[0u8, 0xff, 0xfb])] } else { self.bytes(n).0 };
            Some(B(v))
        } else {
            None
        };
        let fail_n = if self.r.chance(1, 2) { self.r.range(1, 2) } else { 0 };
        CredsPlan { gens, short, eintr, fail, fail_n, flips, fixed, subs, swaps }
    }

    fn path(&mut self) -> PathPlan {
        let run = "/vt6sim/run".to_string();
        let var: Option<Vec<u8>> = match self.r.below(18) {
            9 | 10 => Some(b"/vt6sim/link".to_vec()),
            11 => Some(b"/vt6sim/with space/../run".to_vec()),
            12 => Some(b"/vt6sim/link/../run/.".to_vec()),
            13 => Some(b"/vt6sim/missing/../run".to_vec()),
            0 => None,
            1 => Some(Vec::new()),
            2 => Some(b"/vt6sim/run/".to_vec()),
            3 => Some(b"/vt6sim/missing".to_vec()),
            4 => Some(b"/vt6sim/file".to_vec()),
            5 => Some(b"/vt6sim/missing/deeper".to_vec()),
            6 => Some(b"/vt6sim/r\xff\xfeun".to_vec()),
            7 => Some(b"/vt6sim/with space/x".to_vec()),
            8 => Some(b"/vt6sim/file/below".to_vec()),
            _ => Some(b"/vt6sim/run".to_vec()),
        };
        let mut dirs: Vec<B> = Vec::new();
        let run = B::from(run);
        if self.pct(60) {
            dirs.push(B(b"/vt6sim/r\xff\xfeun".to_vec()));
            if self.pct(30) {
                dirs.push(B(b"/vt6sim/r\xff\xfeun/vt6".to_vec()));
            }
        }
        if !self.pct(10) {
            dirs.push(run.clone());
        }
        dirs.push("/vt6sim/with space".into());
        dirs.push("/vt6sim/with space/x".into());
        let mut files: Vec<B> = vec!["/vt6sim/file".into()];
        match self.r.below(8) {
            0 | 1 => dirs.push("/vt6sim/run/vt6".into()),
            2 => files.push("/vt6sim/run/vt6".into()),
            3 => {
                dirs.push("/vt6sim/run/vt6".into());
                files.push("/vt6sim/run/vt6/4242".into());
            }
            _ => {}
        }
        if self.pct(20) {
            files.push("/vt6sim/run/other".into());
        }
        let mut links: Vec<(B, B)> = Vec::new();
        if self.pct(60) {
            let to: &str = self.r.pick(&["/vt6sim/run", "/vt6sim/run", "/vt6sim/with space/x", "/vt6sim/link2", "/vt6sim/file", "/vt6sim/nothing"]);
            links.push(("/vt6sim/link".into(), to.into()));
            links.push(("/vt6sim/link2".into(), (*self.r.pick(&["/vt6sim/run", "/vt6sim/run", "/vt6sim/link"])).into()));
        }
        let vt6: &[u8] = b"/vt6sim/run/vt6";
        if self.pct(20) && !dirs.iter().chain(&files).any(|d| d.0.starts_with(vt6)) {
            links.push(("/vt6sim/run/vt6".into(), (*self.r.pick(&["/vt6sim/with space", "/vt6sim/link2", "/vt6sim/file", "/vt6sim/nothing"])).into()));
        }
        PathPlan {
            var: var.map(B),
            dirs,
            files,
            links,
            fail_mkdir: if self.pct(20) { Some(*self.r.pick(&[libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EIO, libc::EDQUOT])) } else { None },
            fail_stat: if self.pct(12) { Some((self.r.below(4) as u32, *self.r.pick(&[libc::EACCES, libc::EIO, libc::ELOOP]))) } else { None },
            race_mkdir: self.pct(30),
            race_file: self.pct(10),
            times: self.r.range(1, 3) as u32,
        }
    }

    fn example(&mut self) -> ExamplePlan {
        let n = self.r.range(1, 6);
        let mut end = self.r.range(5, 6000) as u32;
        let mut clients = Vec::new();
        let long = self.pct(3);
        if long {
            // minutes, sometimes more than an hour
            let most = if self.r.chance(1, 8) { 4_500_000 } else { 400_000 };
            end = self.r.range(60_000, most) as u32;
            for k in 0..2 {
                let mut ops = vec![XOp::Hello(k)];
                if k == 1 {
                    for _ in 0..self.r.range(10, 200) {
                        let n = self.r.range(1, 200) as usize;
                        ops.push(XOp::Raw(B((0..n).map(|_| *self.r.pick(b"abc \\\"\n\t\r'{}")).collect())));
                        ops.push(XOp::Sleep(self.r.range(1, 3000) as u32));
                    }
                }
                let start = self.r.below(30_000) as u32;
                clients.push(XClient { start, ops, rd_max: 0, no_read: false });
            }
        }
        if self.pct(4) {
            // a client that creates a lot of others
            let mut ops = vec![XOp::Hello(2)];
            let most = if self.r.chance(1, 6) { 255 } else { 90 };
            let ids: Vec<String> = (0..self.r.range(most / 9, most)).map(|i| format!("a{}{}", (b'a' + (i / 10) as u8) as char, i % 10)).collect();
            for id in &ids {
                ops.push(XOp::Make(id.clone()));
                if self.r.chance(1, 16) {
                    ops.push(if self.r.chance(1, 2) { XOp::Sleep(self.r.range(1, 40) as u32) } else { XOp::End(self.r.pick(&ids).clone()) });
                }
            }
            // some of them again
            for _ in 0..self.r.below(6) {
                if self.r.chance(1, 2) {
                    ops.push(XOp::Sleep(self.r.range(1, 150) as u32));
                }
                ops.push(XOp::Make(self.r.pick(&ids).clone()));
            }
            clients.push(XClient { start: 0, ops, rd_max: 0, no_read: false });
            for _ in 0..self.r.range(2, 12) {
                let mut ops = vec![XOp::HelloMade(self.r.pick(&ids).clone(), true)];
                for _ in 0..self.r.below(3) {
                    ops.push(if self.r.chance(1, 2) { XOp::Raw(B(self.some_msg())) } else { XOp::Sleep(self.r.range(1, 300) as u32) });
                }
                if self.pct(20) {
                    ops.push(XOp::Close);
                }
                let start = self.r.range(1, 100) as u32;
                clients.push(XClient { start, ops, rd_max: 0, no_read: false });
            }
        }
        for _ in 0..n {
            let mut ops = Vec::new();
            let mut k = self.r.below(3) as u32;
            if k == 2 && self.r.chance(1, 3) {
                k = 3;
            }
            match self.r.below(8) {
                _ if k == 3 => {
                    let id = self.r.pick(&XIDS).to_string();
                    let newest = self.r.chance(3, 4);
                    ops.push(XOp::HelloMade(id, newest));
                }
                0 => {
                    let op = self.garbage();
                    if let COp::Raw(b) = op {
                        ops.push(XOp::Raw(b));
                    }
                }
                1 => ops.push(XOp::Raw(B(self.some_msg()))),
                _ => ops.push(XOp::Hello(k)),
            }
            for _ in 0..self.r.below(5) {
                let op = match (k, self.r.below(4)) {
                    (_, 0) => XOp::Sleep(self.r.range(1, 1500) as u32),
                    (1, 1) => {
                        let n = self.r.range(1, 3000) as usize;
                        XOp::Raw(B((0..n).map(|_| b' ' + self.r.below(95) as u8).collect()))
                    }
                    (1, _) => {
                        let n = self.r.range(1, 40) as usize;
                        XOp::Raw(B((0..n).map(|_| *self.r.pick(b"abc \\\"\n\t\r'{}")).collect()))
                    }
                    (2, _) => {
                        let id = self.r.pick(&XIDS).to_string();
                        match self.r.below(6) {
                            0 | 1 => XOp::Raw(B(self.some_msg())),
                            2 => XOp::End(id),
                            _ => XOp::Make(id),
                        }
                    }
                    (3, _) => XOp::Raw(B(self.some_msg())),
                    (_, 1) => XOp::Hello(self.r.below(3) as u32),
                    _ => XOp::Sleep(self.r.range(1, 300) as u32),
                };
                ops.push(op);
            }
            if self.pct(35) {
                ops.push(XOp::Close);
            }
            clients.push(XClient {
                start: if self.r.chance(1, 2) { 0 } else { self.r.below(if long { end as u64 } else { 3000 }) as u32 },
                ops,
                rd_max: if self.pct(20) { *self.r.pick(&[1, 5, 100]) } else { 0 },
                no_read: self.pct(10),
            });
        }
        let family = self.prof.family;
        if self.pct(family) {
            // a client and those it creates
            let mut ops = vec![XOp::Hello(2)];
            for _ in 0..self.r.range(1, 8) {
                let id = self.r.pick(&XIDS[..5]).to_string();
                ops.push(match self.r.below(7) {
                    0 | 1 => XOp::Sleep(self.r.range(1, 900) as u32),
                    2 => XOp::End(id),
                    3 => XOp::Raw(B(self.some_msg())),
                    _ => XOp::Make(id),
                });
            }
            if self.pct(50) {
                // the whole life of one of them, and then once again
                let id = self.r.pick(&XIDS[..5]).to_string();
                let ms = self.r.range(2, 60) as u32;
                ops.push(XOp::Make(id.clone()));
                ops.push(XOp::Sleep(ms));
                ops.push(XOp::End(id.clone()));
                if self.r.chance(1, 3) {
                    ops.push(XOp::Sleep(self.r.range(1, 20) as u32));
                }
                ops.push(XOp::Make(id.clone()));
                for _ in 0..self.r.range(1, 2) {
                    let mut ops = vec![XOp::HelloMade(id.clone(), true)];
                    if self.pct(30) {
                        ops.push(XOp::Close);
                    }
                    clients.push(XClient { start: 1 + self.r.below(ms as u64 + 20) as u32, ops, rd_max: 0, no_read: false });
                }
            }
            clients.push(XClient { start: self.r.below(40) as u32, ops, rd_max: 0, no_read: false });
            for _ in 0..self.r.range(1, 4) {
                let mut ops = vec![XOp::HelloMade(self.r.pick(&XIDS[..5]).to_string(), self.r.chance(2, 3))];
                for _ in 0..self.r.below(3) {
                    ops.push(if self.r.chance(1, 2) { XOp::Raw(B(self.some_msg())) } else { XOp::Sleep(self.r.range(1, 300) as u32) });
                }
                if self.pct(20) {
                    ops.push(XOp::Close);
                }
                let span = *self.r.pick(&[60, 1500, 3000]);
                let start = self.r.below(span) as u32;
                clients.push(XClient { start, ops, rd_max: 0, no_read: false });
            }
        }
        let strangers = self.prof.strangers;
        if self.pct(strangers) {
            // who nearly knows a secret
            for _ in 0..self.r.range(1, 4) {
                let of = self.r.below(4) as u32;
                let kind = if self.r.chance(3, 4) { of.min(2) } else { self.r.below(3) as u32 };
                let how = if kind != of.min(2) && self.r.chance(2, 3) { 11 } else { self.r.below(12 * 64) as u32 };
                let mut ops = vec![XOp::Near(of, kind, how)];
                if self.pct(40) {
                    ops.push(if self.r.chance(1, 2) { XOp::Raw(B(self.some_msg())) } else { XOp::Hello(kind) });
                }
                if self.pct(15) {
                    ops.push(XOp::Close);
                }
                let start = if self.r.chance(1, 2) { 0 } else { self.r.below(1500) as u32 };
                clients.push(XClient { start, ops, rd_max: 0, no_read: false });
            }
        }
        let mut interrupt = vec![end];
        if self.pct(20) {
            interrupt.push(end + self.r.below(3) as u32);
        }
        if self.pct(10) {
            interrupt[0] = 0;
        }
        ExamplePlan { clients, interrupt, dir_missing: self.pct(8), vt6_exists: self.pct(30) }
    }
}
