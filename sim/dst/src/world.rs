//! What the simulated world knows about the server: a small reference model of every connection, the client registry and the
//! broadcasts, against which every observable event is checked while the run proceeds and whenever the server is idle.

use crate::app::TD;
use crate::plan::*;
use crate::proto::{self, Parsed};
use simcore::{net::Conn, net::show, next_seq, sim, violate, Tid};
use std::cell::Cell;
use std::collections::BTreeMap;

thread_local! {
    static WORLD: Cell<*mut World> = const { Cell::new(std::ptr::null_mut()) };
}
pub fn install(w: World) {
    WORLD.with(|c| c.set(Box::into_raw(Box::new(w))));
}
pub fn try_w() -> Option<&'static mut World> {
    let p = WORLD.try_with(|c| c.get()).unwrap_or(std::ptr::null_mut());
    // SAFETY: the world is leaked and used by one OS thread; nobody keeps the reference across a scheduling point
    unsafe { p.as_mut() }
}
pub fn discard() {
    let p = WORLD.with(|c| c.replace(std::ptr::null_mut()));
    if !p.is_null() {
        // SAFETY: created by Box::into_raw above, and nothing runs any more
        drop(unsafe { Box::from_raw(p) });
    }
}
pub fn w() -> &'static mut World {
    try_w().expect("no world")
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Hs,
    Msg,
    In,
    Out,
}
impl Mode {
    fn state_name(self) -> &'static str {
        match self {
            Mode::Hs => "Handshake",
            Mode::Msg => "Msgio",
            Mode::In => "Stdin",
            Mode::Out => "Stdout",
        }
    }
    fn short(self) -> &'static str {
        match self {
            Mode::Hs => "hs",
            Mode::Msg => "msg",
            Mode::In => "stdin",
            Mode::Out => "stdout",
        }
    }
}

/// What a piece of expected output is.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Seg {
    Hello,
    Reply,
    Make,
    End,
    App,
    Stdin,
}
impl Seg {
    fn short(self) -> &'static str {
        match self {
            Seg::Hello => "hello",
            Seg::Reply => "reply",
            Seg::Make => "make",
            Seg::End => "end",
            Seg::App => "app",
            Seg::Stdin => "stdin",
        }
    }
}

pub struct Sock {
    pub client: usize,
    pub sent: Vec<u8>,
    pub received: Vec<u8>,
    pub pos: usize,
    pub mode: Mode,
    pub cid: Option<u64>,
    pub screen: Option<String>,
    pub ident: Option<ClientReg>,
    pub expected: Vec<u8>,
    pub segs: Vec<(usize, Seg)>,
    /// the connection has ended (sequence number, why)
    pub ended: Option<(u64, &'static str)>,
    /// its client's lifetime has ended
    pub doomed: Option<u64>,
    /// a client-end that covers it is being handled
    pub may_end: bool,
    pub opened: Option<u64>,
    pub handled: bool,
    pub frames: u32,
    /// after a violation of a property that this run is not about: what the model says about input or output is moot
    pub in_off: bool,
    pub out_off: bool,
}

#[derive(Default)]
pub struct Cid {
    pub sock: Option<usize>,
    /// broadcasts that ran here, in order
    pub runs: Vec<usize>,
    pub killed: bool,
    pub pre_out: Vec<u8>,
    pub pre_dead: bool,
}

pub struct Bc {
    pub act: usize,
    pub start: u64,
    pub end: Option<u64>,
    pub first_run: Option<u64>,
}

pub enum AppCall {
    Client(String, Option<ClientReg>),
    Stdin(String, Option<String>),
    Stdout(String, Option<String>),
}

struct Frame {
    sock: Option<usize>,
    hs: bool,
    items: Vec<Vec<u8>>,
    calls: Vec<AppCall>,
    registered: Vec<ClientReg>,
    unregistered: Option<Vec<String>>,
    should_unregister: Vec<String>,
    conflict: bool,
    /// this is a client-end that is to be accepted, for this ID
    ends: Option<String>,
}

impl Frame {
    fn new(sock: Option<usize>, hs: bool, items: Vec<Vec<u8>>) -> Frame {
        Frame {
            sock,
            hs,
            items,
            calls: Vec::new(),
            registered: Vec::new(),
            unregistered: None,
            should_unregister: Vec::new(),
            conflict: false,
            ends: None,
        }
    }
}

pub struct RegClient {
    pub reg: ClientReg,
    pub used: bool,
}
pub struct RegScreen {
    pub reg: ScreenReg,
    pub in_used: bool,
    pub out_used: bool,
}
#[derive(Default)]
pub struct Registry {
    pub clients: Vec<RegClient>,
    pub screens: Vec<RegScreen>,
}

#[derive(Default, Clone)]
pub struct RunInfo {
    pub started: bool,
    /// Ok or the errno (None: some other error)
    pub result: Option<Result<(), Option<i32>>>,
    pub resolved_seq: u64,
    pub listener: Option<usize>,
}

#[derive(Default)]
pub struct ClientState {
    pub sock: Option<usize>,
    pub paused: bool,
    pub reader: Option<Tid>,
    pub writer_done: bool,
}

pub struct World {
    pub plan: ServerPlan,
    pub dispatch: Option<TD>,
    pub app_dropped: bool,
    /// somebody has deleted the socket file
    pub unlinked: bool,
    pub live_connectors: i64,
    pub reg: Registry,
    pub bcs: Vec<Bc>,
    pub clients: Vec<ClientState>,
    pub socks: BTreeMap<usize, Sock>,
    cids: BTreeMap<u64, Cid>,
    frames: BTreeMap<Tid, Vec<Frame>>,
    /// a syntax error the handlers were told about: on which connection, in the handshake or not, how often the last handler heard of it
    perr: BTreeMap<Tid, (u64, bool, u32)>,
    pub opened: usize,
    /// every opened notification could be attributed to a connection
    attributed: bool,
    pub closed: usize,
    ioerrs: Vec<Option<i32>>,
    pub issued: Vec<(String, String)>,
    trigs: Vec<(Trig, usize, u32)>,
    note_ctr: u64,
    fill_ctr: u64,
    pub stdin_ctr: u64,
    bc_checked: usize,
    pub run: RunInfo,
    pub shut_started: u64,
    pub shut_done: u64,
    /// shutdown calls started after the last time the listener resolved
    pub shut_since: u64,
    pub ok_resolves: u64,
    /// connections of listeners below this number must be gone
    pub resolved_listeners: usize,
    pub errs_before: usize,
    pub handled_count: usize,
    pub idle_checks: u64,
    pub requests_handled: u64,
    /// lifetimes that clients have named with the library
    pub names: Vec<(LName, String)>,
    /// some clients are built from the library
    pub lib: bool,
}

pub fn errno_name(e: i32) -> String {
    std::io::Error::from_raw_os_error(e).to_string()
}

impl World {
    pub fn new(plan: ServerPlan) -> World {
        let reg = Registry {
            clients: plan.roots.iter().map(|r| RegClient { reg: r.clone(), used: false }).collect(),
            screens: plan
                .screens
                .iter()
                .map(|r| RegScreen { reg: r.clone(), in_used: false, out_used: false })
                .collect(),
        };
        let lib = plan.clients.iter().any(|c| c.lib);
        World {
            issued: plan.roots.iter().map(|r| (r.id.clone(), r.secret.clone())).collect(),
            trigs: plan.trigs.clone(),
            clients: plan.clients.iter().map(|_| ClientState::default()).collect(),
            plan,
            dispatch: None,
            app_dropped: false,
            unlinked: false,
            live_connectors: 0,
            reg,
            bcs: Vec::new(),
            socks: BTreeMap::new(),
            cids: BTreeMap::new(),
            frames: BTreeMap::new(),
            perr: BTreeMap::new(),
            opened: 0,
            attributed: true,
            closed: 0,
            ioerrs: Vec::new(),
            note_ctr: 0,
            fill_ctr: 0,
            stdin_ctr: 0,
            bc_checked: 0,
            run: RunInfo::default(),
            shut_started: 0,
            shut_done: 0,
            shut_since: 0,
            ok_resolves: 0,
            resolved_listeners: 0,
            errs_before: 0,
            handled_count: 0,
            idle_checks: 0,
            requests_handled: 0,
            names: Vec::new(),
            lib,
        }
    }

    fn conn(&self, c: usize) -> &'static Conn {
        &sim().unwrap().net.conns[c]
    }

    pub fn add_sock(&mut self, c: usize, client: usize) {
        self.socks.insert(
            c,
            Sock {
                client,
                sent: Vec::new(),
                received: Vec::new(),
                pos: 0,
                mode: Mode::Hs,
                cid: None,
                screen: None,
                ident: None,
                expected: Vec::new(),
                segs: Vec::new(),
                ended: None,
                doomed: None,
                may_end: false,
                opened: None,
                handled: false,
                frames: 0,
                in_off: false,
                out_off: false,
            },
        );
    }

    fn frame(&mut self) -> Option<&mut Frame> {
        let t = simcore::cur_tid()?;
        self.frames.get_mut(&t)?.last_mut()
    }
    pub fn current_sock(&mut self) -> Option<usize> {
        self.frame().and_then(|f| f.sock)
    }

    fn end_sock(&mut self, c: usize, why: &'static str) {
        let s = self.socks.get_mut(&c).unwrap();
        if s.ended.is_none() {
            simcore::trace(|| format!("model: conn {c} has ended: {why}"));
            s.ended = Some((next_seq(), why));
        }
    }

    fn shutdown_possible(&self) -> bool {
        self.shut_started > self.ok_resolves
    }
    /// errors the current run's listener got from bind or accept
    pub fn listener_errs(&self) -> Vec<i32> {
        let n = &sim().unwrap().net;
        n.listen_errs[self.errs_before.min(n.listen_errs.len())..].to_vec()
    }

    /// Is there a reason for this connection to be closed, other than an I/O error on it?
    fn reason(&self, c: usize) -> bool {
        let s = &self.socks[&c];
        let conn = self.conn(c);
        s.ended.is_some()
            || s.doomed.is_some()
            || s.may_end
            || conn.eof_delivered
            || conn.listener < self.resolved_listeners
            || self.shutdown_possible()
            || !self.listener_errs().is_empty()
    }
    fn broken(&self, c: usize) -> bool {
        !self.conn(c).errs_delivered.is_empty()
    }
    /// open, and nothing that could have ended it
    fn healthy(&self, c: usize) -> bool {
        self.conn(c).srv_closed_seq.is_none() && !self.reason(c) && !self.broken(c)
    }

    ////////////////////////////////////////////////////////////////////////////
    // input

    fn next_items(&self, c: usize) -> Option<(Vec<Vec<u8>>, usize)> {
        let s = &self.socks[&c];
        match proto::parse(&s.sent[s.pos..]) {
            Parsed::Msg(items, n) => Some((items.iter().map(|r| s.sent[s.pos + r.0..s.pos + r.1].to_vec()).collect(), n)),
            _ => None,
        }
    }

    fn map_cid(&mut self, key: u64, c: usize) {
        let cid = self.cids.entry(key).or_default();
        cid.sock = Some(c);
        let pre = std::mem::take(&mut cid.pre_out);
        let (killed, dead) = (cid.killed, cid.pre_dead);
        let s = self.socks.get_mut(&c).unwrap();
        s.cid = Some(key);
        if !pre.is_empty() {
            s.expected.splice(0..0, pre.iter().copied());
            for g in s.segs.iter_mut() {
                g.0 += pre.len();
            }
            s.segs.insert(0, (pre.len(), Seg::App));
        }
        if killed {
            self.end_sock(c, "broadcast");
        }
        if dead {
            self.end_sock(c, "overlong message");
        }
    }

    fn resolve(&mut self, key: u64, items: &[Vec<u8>]) -> Option<usize> {
        if let Some(c) = self.cids.get(&key).and_then(|c| c.sock) {
            return Some(c);
        }
        let last = sim().unwrap().last_sock().filter(|c| self.socks.get(c).is_some_and(|s| s.cid.is_none()));
        let fits = |c: usize| self.next_items(c).is_some_and(|(i, _)| i == items);
        let mut found = last.filter(|&c| fits(c));
        if found.is_none() {
            found = self.socks.iter().filter(|(&c, s)| s.cid.is_none() && self.conn(c).accepted && fits(c)).map(|(&c, _)| c).next();
        }
        let found = found.or(last);
        if let Some(c) = found {
            self.map_cid(key, c);
        }
        found
    }

    pub fn show_items(items: &[Vec<u8>]) -> String {
        items.iter().map(|i| show(i)).collect::<Vec<_>>().join(" ")
    }

    /// Checks that apply to anything interpreted on a connection.
    fn check_interpretable(&mut self, c: usize, what: &str) {
        let conn = self.conn(c);
        let s = &self.socks[&c];
        if conn.listener < self.resolved_listeners {
            violate("shut.handled", format!("{what} on conn {c} after the listener had returned"));
        }
        if let Some((_, why)) = s.ended {
            violate("dead.handled", format!("{what} on conn {c} although it has ended ({why})"));
        }
        if s.doomed.is_some() {
            violate("end.handled", format!("{what} on conn {c} although the lifetime of its client {:?} has ended", s.ident.as_ref().map(|i| &i.id)));
        }
        if self.attributed && s.opened.is_none() {
            violate("note.late_open", format!("{what} on conn {c} before it was reported as opened"));
        }
        let s = self.socks.get_mut(&c).unwrap();
        if !s.handled {
            s.handled = true;
            self.handled_count += 1;
            if self.handled_count > self.opened {
                violate(
                    "note.late_open",
                    format!("{what}: input of {} connections has been handled, only {} have been reported as opened", self.handled_count, self.opened),
                );
            }
        }
    }

    pub fn handle_entry(&mut self, hs: bool, key: u64, items: Vec<Vec<u8>>, state: &str) {
        simcore::trace(|| format!("handler{} key {key} state {state}: {}", if hs { " (handshake)" } else { "" }, Self::show_items(&items)));
        let Some(c) = self.resolve(key, &items) else {
            violate("in.foreign", format!("a handler got a message that no connection can have sent: {}", Self::show_items(&items)));
            self.push_frame(Frame::new(None, hs, items));
            return;
        };
        let what = format!("message {} handled", Self::show_items(&items));
        self.check_interpretable(c, &what);
        let read = self.conn(c).c2s.read as usize;
        let (mode, pos) = {
            let s = &self.socks[&c];
            (s.mode, s.pos)
        };
        if mode != Mode::Hs && mode != Mode::Msg {
            violate("in.mode", format!("{what} on conn {c}, which is in {} mode", mode.short()));
            self.off(c);
        }
        match self.next_items(c) {
            _ if self.socks[&c].in_off => {}
            Some((exp, n)) if exp == items => {
                if pos + n > read {
                    violate("in.early", format!("{what} on conn {c} before its end was read"));
                }
                self.socks.get_mut(&c).unwrap().pos += n;
            }
            other => {
                let s = &self.socks[&c];
                violate(
                    "in.mismatch",
                    format!(
                        "conn {c}: handler got {}, but what comes next in the input is {} ({})",
                        Self::show_items(&items),
                        match other {
                            Some((e, _)) => Self::show_items(&e),
                            None => "not a complete message".into(),
                        },
                        show(&s.sent[pos..])
                    ),
                );
                self.socks.get_mut(&c).unwrap().in_off = true;
            }
        }
        if hs != (mode == Mode::Hs) {
            violate("hs.mode", format!("{what} on conn {c} by the {} handler in {} mode", if hs { "handshake" } else { "message" }, mode.short()));
            self.off(c);
        }
        if state != mode.state_name() {
            violate("hs.state", format!("{what} on conn {c} in state {state}, should be {}", mode.state_name()));
            self.off(c);
        }
        let mut f = Frame::new(Some(c), hs, items);
        if !hs {
            self.requests_handled += 1;
            let own = self.socks[&c].ident.as_ref().map(|i| i.id.clone()).unwrap_or_default();
            if let Some(id) = Self::make_of(&f.items).map(|m| m.id) {
                f.conflict = self.reg.clients.iter().any(|r| proto::at_or_below(&r.reg.id, &id));
            }
            if let Some(id) = Self::end_of(&f.items).filter(|id| proto::strictly_below(id, &own)) {
                f.should_unregister =
                    self.reg.clients.iter().filter(|r| proto::at_or_below(&r.reg.id, &id)).map(|r| r.reg.id.clone()).collect();
                for s in self.socks.values_mut() {
                    if s.mode == Mode::Msg && s.ident.as_ref().is_some_and(|i| proto::at_or_below(&i.id, &id)) {
                        s.may_end = true;
                    }
                }
                f.ends = Some(id);
            }
        }
        self.socks.get_mut(&c).unwrap().frames += 1;
        self.push_frame(f);
    }
    fn push_frame(&mut self, f: Frame) {
        self.frames.entry(simcore::cur_tid().unwrap()).or_default().push(f);
    }
    fn off(&mut self, c: usize) {
        let s = self.socks.get_mut(&c).unwrap();
        s.in_off = true;
        s.out_off = true;
    }

    pub fn make_of(items: &[Vec<u8>]) -> Option<ClientReg> {
        if items[0] != b"core1.client-make" || items.len() != 5 || !proto::is_client_id(&items[1]) {
            return None;
        }
        let mut scr = Vec::new();
        for a in &items[2..] {
            scr.push(match std::str::from_utf8(a) {
                Ok("") => None,
                Ok(s) => Some(s.to_string()),
                Err(_) => return None,
            });
        }
        let stderr = scr.pop().unwrap();
        let stdout = scr.pop().unwrap();
        let stdin = scr.pop().unwrap();
        Some(ClientReg { id: String::from_utf8(items[1].clone()).unwrap(), stdin, stdout, stderr, secret: String::new() })
    }
    pub fn end_of(items: &[Vec<u8>]) -> Option<String> {
        if items[0] != b"core1.client-end" || items.len() != 2 || !proto::is_client_id(&items[1]) {
            return None;
        }
        Some(String::from_utf8(items[1].clone()).unwrap())
    }

    /// Output that the model expects on a connection from now on. Too long for a legal message: the connection ends instead.
    fn expect(&mut self, c: usize, bytes: &[u8], seg: Seg) {
        let s = self.socks.get_mut(&c).unwrap();
        if s.ended.is_some() {
            return;
        }
        if seg != Seg::Stdin && bytes.len() > proto::MAX_MSG {
            simcore::count("reach.overlong_reply");
            self.end_sock(c, "overlong reply");
            return;
        }
        s.expected.extend_from_slice(bytes);
        let n = s.expected.len();
        s.segs.push((n, seg));
    }

    fn have_for(&self, module: &[u8]) -> Vec<u8> {
        let minor = match module {
            b"core1" | b"posix1" => Some(0),
            b"sim1" => Some(self.plan.sim_version),
            _ => None,
        };
        let mut arg = module.to_vec();
        if let Some(m) = minor {
            arg.extend_from_slice(format!(".{m}").as_bytes());
        }
        proto::encode(&[b"have".to_vec(), arg])
    }

    pub fn handle_exit(&mut self, res: u32, state: &str) {
        let t = simcore::cur_tid().unwrap();
        let f = self.frames.get_mut(&t).and_then(|v| v.pop()).expect("exit without entry");
        let Some(c) = f.sock else { return };
        self.socks.get_mut(&c).unwrap().frames -= 1;
        if f.hs {
            self.exit_hs(c, f, res, state);
        } else {
            self.exit_msg(c, f, res, state);
        }
        self.check_received(c);
    }

    fn exit_hs(&mut self, c: usize, f: Frame, res: u32, state: &str) {
        let shown = Self::show_items(&f.items);
        let kind = match &f.items[0][..] {
            b"posix1.stdin-hello" => Some(HelloKind::Stdin),
            b"posix1.stdout-hello" => Some(HelloKind::Stdout),
            b"posix1.client-hello" => Some(HelloKind::Client),
            _ => None,
        };
        let secret = match (kind, f.items.len()) {
            (Some(_), 2) => String::from_utf8(f.items[1].clone()).ok(),
            _ => None,
        };
        match secret {
            None => {
                if !f.calls.is_empty() {
                    violate("hs.calls", format!("conn {c}: the application was asked to authorize although the first message was {shown}"));
                }
            }
            Some(ref s) => {
                if f.calls.len() != 1 {
                    violate("hs.calls", format!("conn {c}: the application was asked {} times about {shown}", f.calls.len()));
                }
                let ok = match (f.calls.first(), kind.unwrap()) {
                    (None, _) => true,
                    (Some(call), kind) => match (call, kind) {
                    (AppCall::Client(x, _), HelloKind::Client) => x == s,
                    (AppCall::Stdin(x, _), HelloKind::Stdin) => x == s,
                    (AppCall::Stdout(x, _), HelloKind::Stdout) => x == s,
                    _ => false,
                    },
                };
                if !ok {
                    violate("hs.calls", format!("conn {c}: the application was asked about something else than what {shown} says"));
                }
            }
        }
        let mut mode = None;
        match f.calls.into_iter().next() {
            Some(AppCall::Client(_, Some(reg))) => {
                mode = Some(Mode::Msg);
                self.socks.get_mut(&c).unwrap().ident = Some(reg.clone());
                let o = |s: &Option<String>| s.clone().unwrap_or_default();
                let items = ["posix1.server-hello".to_string(), reg.id.clone(), o(&reg.stdin), o(&reg.stdout), o(&reg.stderr)];
                self.expect(c, &proto::encode(&items), Seg::Hello);
            }
            Some(AppCall::Stdin(_, Some(id))) => {
                mode = Some(Mode::In);
                self.socks.get_mut(&c).unwrap().screen = Some(id);
            }
            Some(AppCall::Stdout(_, Some(id))) => {
                mode = Some(Mode::Out);
                self.socks.get_mut(&c).unwrap().screen = Some(id);
            }
            _ => {}
        }
        match mode {
            None => {
                simcore::count("reach.handshake_refused");
                if res == 0 && state != "Teardown" {
                    violate("hs.state", format!("conn {c}: state {state} after a handshake that must fail: {shown}"));
                }
                self.end_sock(c, "failed handshake");
            }
            Some(m) => {
                simcore::count(match m {
                    Mode::Msg => "reach.client_hello",
                    Mode::In => "reach.stdin_hello",
                    _ => "reach.stdout_hello",
                });
                let s = self.socks.get_mut(&c).unwrap();
                s.mode = m;
                let want = if s.ended.is_some() { "Teardown" } else { m.state_name() };
                if state != want || res != 0 {
                    violate("hs.state", format!("conn {c}: state {state} (result {res}) after {shown}, should be {want}"));
                    self.off(c);
                }
            }
        }
    }

    fn exit_msg(&mut self, c: usize, f: Frame, _res: u32, state: &str) {
        let ty = f.items[0].clone();
        let shown = Self::show_items(&f.items);
        if !f.calls.is_empty() {
            violate("hs.calls", format!("conn {c}: the application was asked to authorize by {shown} on an established connection"));
        }
        let nope = proto::encode(&[b"nope".to_vec(), ty.clone()]);
        let own = self.socks[&c].ident.as_ref().map(|i| i.id.clone()).unwrap_or_default();
        let mut reply: Option<(Vec<u8>, Seg)> = None;
        let mut should_register = None;
        match &ty[..] {
            b"want" => {
                reply = Some((
                    if f.items.len() == 2 && proto::is_module(&f.items[1]) { self.have_for(&f.items[1]) } else { nope },
                    Seg::Reply,
                ));
            }
            b"core1.client-make" => {
                let m = Self::make_of(&f.items).filter(|m| proto::strictly_below(&m.id, &own));
                match m {
                    None => reply = Some((nope, Seg::Make)),
                    Some(m) => {
                        if let Some(r) = f.registered.first() {
                            reply = Some((proto::encode(&["core1.client-new", &r.secret]), Seg::Make));
                            simcore::count("reach.client_made");
                        } else {
                            reply = Some((nope, Seg::Make));
                            let now = self.reg.clients.iter().any(|r| proto::at_or_below(&r.reg.id, &m.id));
                            if !f.conflict && !now {
                                violate("reg.missing", format!("conn {c} (client {own}): {shown} was refused although the ID is below the requester's and nothing at or below it is registered"));
                            }
                            simcore::count("reach.client_make_refused");
                        }
                        should_register = Some(m);
                    }
                }
            }
            b"core1.client-end" => match &f.ends {
                None => {
                    reply = Some((nope, Seg::End));
                    simcore::count("reach.client_end_refused");
                }
                Some(_) => simcore::count("reach.client_end"),
            },
            b"posix1.stdin-hello" | b"posix1.stdout-hello" | b"posix1.client-hello" => reply = Some((nope, Seg::Reply)),
            b"sim1.echo" | b"sim1.burst" | b"sim1.cast" | b"sim1.down" | b"sim1.bye" => {}
            b"sim1.bad" => reply = Some((nope, Seg::Reply)),
            b"sim1.byebad" | b"sim1.byewhat" => {}
            b"have" | b"nope" => reply = Some((nope, Seg::Reply)),
            _ => {
                let m = proto::scoped(&ty).expect("type").0.to_vec();
                reply = Some((self.have_for(&m), Seg::Reply));
            }
        }
        match (should_register, f.registered.len()) {
            (Some(m), 1) => {
                let r = &f.registered[0];
                if (&r.id, &r.stdin, &r.stdout, &r.stderr) != (&m.id, &m.stdin, &m.stdout, &m.stderr) {
                    violate("reg.wrong", format!("conn {c}: {shown} registered {r:?}"));
                }
            }
            (_, 0) => {}
            (Some(_), n) => violate("reg.twice", format!("conn {c}: {shown} registered {n} clients")),
            (None, _) => violate("reg.unauthorized", format!("conn {c} (client {own:?}): {shown} registered {:?}", f.registered)),
        }
        match (&f.ends, &f.unregistered) {
            (None, None) => {}
            (None, Some(u)) => {
                violate("end.unauthorized", format!("conn {c} (client {own:?}): {shown} unregistered {u:?}"));
            }
            (Some(_), u) => {
                let got: Vec<String> = u.clone().unwrap_or_default();
                let mut want = f.should_unregister.clone();
                // gone by another request meanwhile
                want.retain(|id| got.contains(id) || self.reg.clients.iter().any(|r| r.reg.id == *id));
                if got != want {
                    violate("end.registry", format!("conn {c} (client {own:?}): {shown} unregistered {got:?}, should be {want:?}"));
                }
            }
        }
        if let Some(id) = &f.ends {
            let q = next_seq();
            for (&d, s) in self.socks.iter_mut() {
                if s.mode == Mode::Msg && s.ident.as_ref().is_some_and(|i| proto::at_or_below(&i.id, id)) && s.doomed.is_none() {
                    simcore::trace(|| format!("model: conn {d} must end with client {id}"));
                    s.doomed = Some(q);
                }
            }
        }
        let gone = self.socks[&c].ended.is_some();
        match &ty[..] {
            b"sim1.bye" | b"sim1.byebad" | b"sim1.byewhat" => self.end_sock(c, "handler"),
            _ => {
                if let Some((r, seg)) = reply {
                    self.expect(c, &r, seg);
                }
                // (an overlong `have`/`nope` for an error is only sent after this)
                if state != "Msgio" && !gone && self.socks[&c].ended.is_none() {
                    violate("hs.state", format!("conn {c}: state {state} after {shown}"));
                }
            }
        }
    }

    pub fn on_parse_error(&mut self, key: u64, hs: bool) {
        simcore::count("reach.parse_error");
        simcore::trace(|| format!("handlers are told about a syntax error on {key}"));
        if self.perr.insert(simcore::cur_tid().unwrap(), (key, hs, 0)).is_some() {
            violate("in.error", format!("handlers are told about a syntax error on connection {key}, but nothing was skipped since the last one"));
        }
    }
    pub fn on_tail_error(&mut self, key: u64) {
        match self.perr.get_mut(&simcore::cur_tid().unwrap()) {
            Some(p) if p.0 == key => p.2 += 1,
            _ => violate("in.error", format!("the last handler alone is told about a syntax error on connection {key}")),
        }
    }
    pub fn on_parse_error_done(&mut self) {
        if let Some(p) = self.perr.get(&simcore::cur_tid().unwrap()).filter(|p| p.2 != 1) {
            violate("in.error", format!("a syntax error on connection {} is passed on {} times to the last handler of the chain", p.0, p.2));
        }
    }

    pub fn on_authorize(&mut self, call: AppCall) {
        match self.frame() {
            Some(f) => f.calls.push(call),
            None => violate("hs.calls", "the application was asked to authorize outside of any message".into()),
        }
    }

    pub fn on_register(&mut self, i: &vt6::server::ClientIdentity, secret: &str) {
        let o = |s: Option<&str>| s.map(|s| s.to_string());
        let reg = ClientReg {
            id: i.client_id().as_str().to_string(),
            stdin: o(i.stdin_screen_id()),
            stdout: o(i.stdout_screen_id()),
            stderr: o(i.stderr_screen_id()),
            secret: secret.to_string(),
        };
        simcore::trace(|| format!("register {reg:?}"));
        if let Some(r) = self.reg.clients.iter().find(|r| proto::at_or_below(&r.reg.id, &reg.id)) {
            violate("reg.overlap", format!("client {} gets registered although {} is", reg.id, r.reg.id));
        }
        if self.issued.iter().any(|x| x.1 == secret) {
            violate("reg.secret", format!("secret issued twice for {}", reg.id));
        }
        match self.frame() {
            Some(f) => f.registered.push(reg.clone()),
            None => violate("reg.unauthorized", format!("client {} gets registered outside of any request", reg.id)),
        }
        self.issued.push((reg.id.clone(), secret.to_string()));
        self.reg.clients.push(RegClient { reg, used: false });
    }

    pub fn on_unregister(&mut self, contains: impl Fn(&str) -> bool) {
        let gone: Vec<String> = self.reg.clients.iter().filter(|r| contains(&r.reg.id)).map(|r| r.reg.id.clone()).collect();
        self.reg.clients.retain(|r| !contains(&r.reg.id));
        simcore::trace(|| format!("unregister {gone:?}"));
        let ends = match self.frame() {
            Some(f) => {
                let mut u = f.unregistered.take().unwrap_or_default();
                u.extend(gone);
                // keep registration order
                let want = f.should_unregister.clone();
                u.sort_by_key(|id| want.iter().position(|x| x == id).unwrap_or(usize::MAX));
                f.unregistered = Some(u);
                f.ends.clone()
            }
            None => {
                violate("end.unauthorized", format!("clients {gone:?} get unregistered outside of any request"));
                None
            }
        };
        if let Some(id) = ends {
            // IDs that are not registered, but would be covered or not
            let below = format!("{id}x");
            if !contains(&id) || !contains(&below) || (id.len() > 1 && contains(&id[..id.len() - 1])) {
                violate("end.registry", format!("selector for ending {id} does not mean the IDs at or below it"));
            }
        }
    }

    /// Finds the connection an event without ID belongs to.
    fn by_last_sock(&self, prefer: impl Fn(usize) -> bool) -> Option<usize> {
        let last = sim().unwrap().last_sock().filter(|c| self.socks.contains_key(c));
        if let Some(c) = last {
            if prefer(c) {
                return Some(c);
            }
        }
        self.socks.keys().copied().find(|&c| self.conn(c).accepted && prefer(c)).or(last)
    }

    pub fn on_discarded(&mut self, bytes: &[u8]) {
        simcore::trace(|| format!("discarded {}", show(bytes)));
        simcore::count("reach.discarded");
        let told = self.perr.remove(&simcore::cur_tid().unwrap());
        let Some(c) = self.by_last_sock(|c| {
            let s = &self.socks[&c];
            s.ended.is_none() && !bytes.is_empty() && (s.in_off || s.sent[s.pos..].starts_with(bytes))
        }) else {
            violate("in.discard", format!("discarded bytes that nobody sent: {}", show(bytes)));
            return;
        };
        let what = format!("{} discarded", show(bytes));
        self.check_interpretable(c, &what);
        let read = self.conn(c).c2s.read as usize;
        let s = self.socks.get_mut(&c).unwrap();
        if s.in_off {
            match s.mode {
                Mode::In => self.end_sock(c, "input on stdin"),
                Mode::Hs => self.end_sock(c, "failed handshake"),
                _ => {}
            }
            return;
        }
        let ok = !bytes.is_empty() && s.sent[s.pos..].starts_with(bytes) && s.pos + bytes.len() <= read;
        if !ok {
            let m = format!("conn {c}: {what}, but what comes next in the input is {}", show(&s.sent[s.pos..]));
            violate("in.discard", m);
            self.discard_off(c);
            return;
        }
        match s.mode {
            Mode::In => {
                s.pos += bytes.len();
                self.end_sock(c, "input on stdin");
            }
            Mode::Out => {
                violate("in.discard", format!("conn {c}: {what} in stdout mode"));
                self.discard_off(c);
            }
            Mode::Hs | Mode::Msg => {
                if proto::parse(&s.sent[s.pos..read]) != Parsed::Error {
                    let m = format!("conn {c}: {what}, but this is not an error: {}", show(&s.sent[s.pos..read]));
                    violate("in.discard", m);
                    self.discard_off(c);
                    return;
                }
                if bytes[1..].contains(&b'{') {
                    violate("in.discard", format!("conn {c}: {what}: skipped past a possible start of a message"));
                    self.discard_off(c);
                    return;
                }
                s.pos += bytes.len();
                let hs = s.mode == Mode::Hs;
                let cid = s.cid;
                match told {
                    Some(p) if p.1 == hs && cid.map_or(true, |k| k == p.0) => {}
                    other => violate("in.error", format!("conn {c}: {what} in {} mode, but handlers were told about {}", if hs { "handshake" } else { "message" }, match other {
                        None => "no syntax error".into(),
                        Some(p) => format!("a syntax error on connection {}{}", p.0, if p.1 { " in handshake mode" } else { "" }),
                    })),
                }
                if hs {
                    self.end_sock(c, "failed handshake");
                }
            }
        }
    }

    fn discard_off(&mut self, c: usize) {
        let s = self.socks.get_mut(&c).unwrap();
        s.in_off = true;
        match s.mode {
            Mode::In => self.end_sock(c, "input on stdin"),
            Mode::Hs => self.end_sock(c, "failed handshake"),
            _ => {}
        }
    }

    pub fn on_receive(&mut self, sock: Option<usize>, screen: &str, buf: &[u8]) {
        simcore::trace(|| format!("stdout for {screen}: {}", show(buf)));
        let c = sock.or_else(|| {
            self.by_last_sock(|c| {
                let s = &self.socks[&c];
                s.mode == Mode::Out && s.screen.as_deref() == Some(screen) && s.sent[s.pos..].starts_with(buf)
            })
        });
        let Some(c) = c else {
            violate("stdout.foreign", format!("output for screen {screen} out of nowhere: {}", show(buf)));
            return;
        };
        let what = format!("{} delivered as output", show(buf));
        let s = &self.socks[&c];
        if s.mode != Mode::Out || s.screen.as_deref() != Some(screen) {
            violate("stdout.foreign", format!("{what} for screen {screen} on conn {c}, which is in {} mode (screen {:?})", s.mode.short(), s.screen));
            return;
        }
        self.check_interpretable(c, &what);
        let read = self.conn(c).c2s.read as usize;
        let s = self.socks.get_mut(&c).unwrap();
        if s.in_off {
            return;
        }
        if !s.sent[s.pos..].starts_with(buf) || s.pos + buf.len() > read {
            let m = format!("conn {c}: {what}, but what comes next in the input is {}", show(&s.sent[s.pos..]));
            violate("stdout.mismatch", m);
            self.socks.get_mut(&c).unwrap().in_off = true;
            return;
        }
        s.pos += buf.len();
    }

    ////////////////////////////////////////////////////////////////////////////
    // output

    pub fn on_received(&mut self, c: usize, data: &[u8]) {
        self.socks.get_mut(&c).unwrap().received.extend_from_slice(data);
        self.check_received(c);
    }

    fn check_received(&mut self, c: usize) {
        let s = &self.socks[&c];
        if s.out_off || s.cid.is_none() && s.mode == Mode::Hs {
            // checked once we know more
            return;
        }
        let n = s.received.len().min(s.expected.len());
        if s.received[..n] != s.expected[..n] {
            let i = (0..n).find(|&i| s.received[i] != s.expected[i]).unwrap();
            let seg = s.segs.iter().find(|g| g.0 > i).map(|g| g.1).unwrap_or(Seg::Reply);
            let from = i.saturating_sub(40);
            violate(
                &format!("out.mismatch.{}", seg.short()),
                format!(
                    "conn {c}: output differs at byte {i}: received {}, expected {} (from byte {from})",
                    show(&s.received[from..s.received.len().min(from + 200)]),
                    show(&s.expected[from..s.expected.len().min(from + 200)])
                ),
            );
            self.socks.get_mut(&c).unwrap().out_off = true;
            return;
        }
        if s.received.len() > s.expected.len() && s.frames == 0 {
            let kind = match s.ended {
                Some((_, "failed handshake")) => "hs".to_string(),
                Some(_) => "dead".to_string(),
                None => s.mode.short().to_string(),
            };
            violate(&format!("out.extra.{kind}"), format!("conn {c}: received more than what was enqueued: {}", show(&s.received[n..])));
            self.socks.get_mut(&c).unwrap().out_off = true;
        }
    }

    pub fn expect_out(&mut self, key: u64, bytes: &[u8]) {
        let cid = self.cids.entry(key).or_default();
        match cid.sock {
            None => {
                if !cid.pre_dead && !cid.killed {
                    cid.pre_out.extend_from_slice(bytes);
                }
            }
            Some(c) => {
                let in_frame = self.frame().is_some_and(|f| f.sock == Some(c));
                let seg = if self.socks[&c].mode == Mode::In {
                    Seg::Stdin
                } else if in_frame {
                    Seg::Reply
                } else {
                    Seg::App
                };
                simcore::count(match seg {
                    Seg::Stdin => "reach.enqueue_stdin",
                    _ => "reach.enqueue_msg",
                });
                self.expect(c, bytes, seg);
            }
        }
    }

    /// A `sim1.note` of this total size (as far as possible), unlike any other.
    pub fn note_items(&mut self, size: usize) -> Vec<Vec<u8>> {
        self.note_ctr += 1;
        let n = format!("{}", self.note_ctr).into_bytes();
        let mut items = vec![b"sim1.note".to_vec(), n, Vec::new()];
        let want = size.min(proto::MAX_MSG);
        for _ in 0..3 {
            let have = proto::encode(&items).len();
            let pad = items[2].len() as i64 + want as i64 - have as i64;
            let k = self.note_ctr as usize;
            items[2] = (0..pad.max(0) as usize).map(|i| ((i * 7 + k * 13 + i / 256) % 251) as u8).collect();
        }
        while proto::encode(&items).len() > proto::MAX_MSG {
            items[2].pop();
        }
        items
    }

    pub fn stdin_bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n)
            .map(|_| {
                self.stdin_ctr += 1;
                let c = self.stdin_ctr;
                (c.wrapping_mul(0x9E3779B1) >> 11) as u8 ^ (c >> 8) as u8
            })
            .collect()
    }
    pub fn fill_bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n)
            .map(|_| {
                self.fill_ctr += 1;
                let c = self.fill_ctr;
                (c.wrapping_mul(0x85EBCA6B) >> 9) as u8 ^ (c >> 8) as u8
            })
            .collect()
    }

    ////////////////////////////////////////////////////////////////////////////
    // broadcasts

    pub fn take_triggers(&mut self, t: Trig) -> Vec<usize> {
        let mut v = Vec::new();
        for x in self.trigs.iter_mut().filter(|x| x.0 == t && x.2 > 0) {
            x.2 -= 1;
            v.push(x.1);
        }
        v.retain(|&a| a < self.plan.acts.len());
        v
    }

    pub fn bc_start(&mut self, act: usize) -> usize {
        let start = next_seq();
        self.bcs.push(Bc { act, start, end: None, first_run: None });
        simcore::count("reach.cast");
        let id = self.bcs.len() - 1;
        simcore::trace(|| format!("broadcast {id} (act {act}) gets enqueued"));
        id
    }
    pub fn bc_end(&mut self, id: usize) {
        self.bcs[id].end = Some(next_seq());
    }
    /// `a` was enqueued before the call enqueuing `b` began
    fn before(&self, a: usize, b: usize) -> bool {
        let known = match (self.bcs[a].end, self.bcs[a].first_run) {
            (Some(x), Some(y)) => x.min(y),
            (Some(x), None) | (None, Some(x)) => x,
            (None, None) => return false,
        };
        known < self.bcs[b].start
    }
    pub fn bc_run(&mut self, id: usize, key: u64, state: &str) -> bool {
        simcore::trace(|| format!("broadcast {id} runs on {key} ({state})"));
        simcore::count("reach.cast_run");
        if id < self.bc_checked {
            violate("bc.late", format!("broadcast {id} runs on connection {key}, but the server has been idle since it was enqueued"));
        }
        if !self.cids.entry(key).or_default().runs.is_empty() {
            let runs = &self.cids[&key].runs;
            if runs.contains(&id) {
                violate("bc.twice", format!("broadcast {id} runs a second time on connection {key}"));
            }
            if let Some(&later) = runs.iter().find(|&&r| self.before(id, r)) {
                violate("bc.order", format!("broadcast {id} was enqueued before {later}, but runs after it on connection {key}"));
            }
        }
        let cid = self.cids.get_mut(&key).unwrap();
        cid.runs.push(id);
        if let Some(c) = cid.sock {
            let s = &self.socks[&c];
            let want = if s.ended.is_some() { "Teardown" } else { s.mode.state_name() };
            // while a handler has the connection, nobody else may
            if s.frames > 0 {
                violate("bc.during", format!("broadcast {id} runs on conn {c} while a handler is working on it"));
            }
            let ok = state == want || (state == "Teardown" && (self.reason(c) || self.broken(c)));
            if !ok {
                violate("state.wrong", format!("broadcast {id} finds conn {c} in state {state}, should be {want}"));
            }
        }
        let b = &mut self.bcs[id];
        if b.first_run.is_none() {
            b.first_run = Some(next_seq());
            return true;
        }
        false
    }
    pub fn check_predicates(&mut self, key: u64, state: &str, can_msg: bool, can_stdin: bool, for_screen: impl Fn(&str) -> bool) {
        if can_msg != (state == "Handshake" || state == "Msgio") {
            violate("pred.msg", format!("can_receive_messages() is {can_msg} in state {state}"));
        }
        if can_stdin != (state == "Stdin") {
            violate("pred.stdin", format!("can_receive_stdin() is {can_stdin} in state {state}"));
        }
        let own = self.cids.get(&key).and_then(|c| c.sock).and_then(|c| self.socks[&c].screen.clone());
        let known = self.cids.get(&key).is_some_and(|c| c.sock.is_some());
        for s in self.plan.screens.iter().map(|s| &s.id) {
            let want = state == "Stdin" && own.as_ref() == Some(s);
            if (known || state != "Stdin") && for_screen(s) != want {
                violate("pred.stdin", format!("can_receive_stdin_for_screen({s:?}) is {} in state {state}, screen {own:?}", !want));
            }
        }
    }
    pub fn check_connectors(&mut self, key: u64, state: &str, client: Option<String>, screen: Option<String>) {
        let sock = self.cids.get(&key).and_then(|c| c.sock).map(|c| &self.socks[&c]);
        let want_client = sock.and_then(|s| s.ident.as_ref()).map(|i| i.id.clone());
        let want_screen = sock.and_then(|s| s.screen.clone());
        let ok = |state_ok: bool, got: &Option<String>, want: &Option<String>| match got {
            None => !state_ok,
            Some(g) => state_ok && want.as_ref().map_or(true, |w| w == g),
        };
        if !ok(state == "Msgio", &client, &want_client) || !ok(state == "Stdout", &screen, &want_screen) {
            violate("hs.connector", format!("connection {key} (client {want_client:?}, screen {want_screen:?}) in state {state} has message connector {client:?} and stdout connector {screen:?}"));
        }
    }
    pub fn on_kill(&mut self, key: u64) {
        simcore::count("reach.kill");
        let cid = self.cids.entry(key).or_default();
        cid.killed = true;
        simcore::trace(|| format!("connection {key} gets killed"));
        if let Some(c) = cid.sock {
            self.end_sock(c, "broadcast");
        }
    }

    ////////////////////////////////////////////////////////////////////////////
    // notifications

    pub fn on_opened(&mut self) {
        self.opened += 1;
        simcore::trace(|| "notification: opened".into());
        let s = sim().unwrap();
        match s.last_accept().filter(|c| self.socks.get(c).is_some_and(|s| s.opened.is_none())) {
            Some(c) => self.socks.get_mut(&c).unwrap().opened = Some(next_seq()),
            None => {
                // attributed to the oldest one not reported yet
                let c = self.socks.iter().find(|(&c, s)| s.opened.is_none() && self.conn(c).accepted).map(|(&c, _)| c);
                self.attributed = false;
                if let Some(c) = c {
                    self.socks.get_mut(&c).unwrap().opened = Some(next_seq());
                }
            }
        }
        let accepted = self.accepted();
        if self.opened > accepted {
            violate("note.open", format!("{} connections reported as opened, {accepted} accepted", self.opened));
        }
    }
    fn accepted(&self) -> usize {
        sim().unwrap().net.conns.iter().filter(|c| c.accepted).count()
    }
    fn anon_kills(&self) -> usize {
        self.cids.values().filter(|c| c.sock.is_none() && (c.killed || c.pre_dead)).count()
    }
    pub fn on_closed(&mut self) {
        self.closed += 1;
        simcore::trace(|| "notification: closed".into());
        if self.closed > self.opened {
            violate("note.order", format!("{} connections reported as closed, only {} as opened", self.closed, self.opened));
        }
        let mut reasons = self.anon_kills();
        let mut io = 0;
        for &c in self.socks.keys() {
            if self.conn(c).accepted {
                if self.reason(c) {
                    reasons += 1;
                } else if self.broken(c) {
                    io += 1;
                }
            }
        }
        if self.closed > reasons + io {
            violate("note.closed_early", format!("{} connections reported as closed, but only {} have ended", self.closed, reasons + io));
        }
        if self.closed > reasons + io.min(self.ioerrs.len()) {
            violate(
                "note.ioerr_late",
                format!("{} connections reported as closed; {reasons} have ended without an I/O error, and only {} I/O errors have been reported", self.closed, self.ioerrs.len()),
            );
        }
    }
    pub fn on_ioerror(&mut self, errno: Option<i32>) {
        simcore::trace(|| format!("notification: I/O error {errno:?}"));
        simcore::count("reach.ioerror_reported");
        self.ioerrs.push(errno);
        let mut delivered: Vec<i32> = Vec::new();
        for c in sim().unwrap().net.conns.iter() {
            delivered.extend(&c.errs_delivered);
        }
        for e in &self.ioerrs {
            // an error type that wraps the system's is fine, too
            match e {
                Some(e) => match delivered.iter().position(|d| d == e) {
                    Some(i) => {
                        delivered.swap_remove(i);
                    }
                    None => {
                        violate("note.ioerr_spurious", format!("an I/O error ({}) was reported that did not occur (or not that often)", errno_name(*e)));
                        return;
                    }
                },
                None => {
                    if delivered.pop().is_none() {
                        violate("note.ioerr_spurious", "an I/O error was reported that did not occur".into());
                        return;
                    }
                }
            }
        }
    }

    ////////////////////////////////////////////////////////////////////////////
    // listener

    pub fn on_shutdown_call(&mut self) {
        self.shut_started += 1;
        self.shut_since += 1;
        simcore::count("reach.shutdown_call");
        simcore::trace(|| "shutdown requested".into());
    }
    pub fn on_shutdown_done(&mut self) {
        self.shut_done += 1;
    }

    pub fn on_run_start(&mut self) {
        self.errs_before = sim().unwrap().net.listen_errs.len();
        self.run = RunInfo { started: true, ..Default::default() };
    }

    pub fn on_resolved(&mut self, path: &[u8], before: Option<simcore::fs::Node>, n_listeners: usize, r: std::io::Result<()>) {
        let r = r.map_err(|e| e.raw_os_error());
        simcore::trace(|| format!("run_listener returned {r:?}"));
        let s = sim().unwrap();
        let bound = s.net.listeners.len() > n_listeners;
        let errs = self.listener_errs();
        let node = s.fs.node(path).cloned();
        let asked = self.shutdown_possible();
        match r {
            Ok(()) => {
                if !errs.is_empty() && !asked {
                    violate("accept.result", format!("the listener got error {} but returned success", errno_name(errs[0])));
                } else if !asked {
                    violate("shut.spurious", "the listener returned although nobody requested a shutdown".into());
                }
                if !bound {
                    violate("bind.result", "the listener returned success without having bound the socket".into());
                }
                self.ok_resolves = self.shut_started.min(self.ok_resolves + 1);
            }
            // how the deletion of its socket file by somebody else ends is left open
            Err(e) if errs.is_empty() && asked && self.unlinked && e == Some(libc::ENOENT) => {}
            Err(e) => {
                if errs.is_empty() {
                    violate("shut.result", format!("the listener returned an error ({e:?}) although neither binding nor accepting failed"));
                } else if e != errs.first().copied() {
                    violate("accept.result", format!("the listener returned error {e:?}, the one that occurred is {errs:?}"));
                }
            }
        }
        if bound {
            if matches!(node, Some(simcore::fs::Node::Socket(_))) {
                violate(
                    if errs.is_empty() { "shut.file" } else { "accept.file" },
                    "the socket file still exists after the listener returned".into(),
                );
            }
        } else if node != before {
            violate("bind.touched", format!("binding failed, and what was at the socket path has changed from {before:?} to {node:?}"));
        }
        if bound && sim().unwrap().net.listeners.iter().any(|l| l.open) {
            violate("shut.listening", "the server socket is still open after the listener returned".into());
        }
        self.resolved_listeners = s.net.listeners.len();
        self.shut_since = 0;
        self.run.resolved_seq = next_seq();
        self.run.result = Some(r);
    }

    ////////////////////////////////////////////////////////////////////////////
    // checks while nothing is runnable

    pub fn idle(&mut self) {
        self.idle_checks += 1;
        let s = sim().unwrap();
        macro_rules! bad {
            ($k:expr, $($a:tt)*) => {{
                violate($k, format!($($a)*));
                if s.outcome().is_some() {
                    return;
                }
            }};
        }
        let active = self.run.started && self.run.result.is_none();
        if active {
            if self.shut_since > 0 && self.shut_done == self.shut_started {
                bad!("shut.stuck", "shutdown was requested, but the listener does not return");
            }
            let errs = self.listener_errs();
            if !errs.is_empty() {
                bad!("accept.stuck", "accepting failed with {errs:?}, but the listener does not return");
            }
            for l in s.net.listeners.iter().filter(|l| l.open) {
                if !l.backlog.is_empty() {
                    bad!("accept.missing", "{} connections are not accepted", l.backlog.len());
                }
            }
        }
        if !self.frames.values().all(|v| v.is_empty()) {
            bad!("stuck", "nothing is runnable, but a handler has not returned");
        }
        let mut anon_closed = 0;
        let mut anon_reasonless = 0;
        let mut unmapped_open: Vec<u64> = Vec::new();
        let mut connectors = 0;
        let mut closed = 0;
        let mut err_only = 0;
        for &c in self.socks.keys() {
            let conn = self.conn(c);
            let k = &self.socks[&c];
            if !conn.accepted {
                if !k.received.is_empty() {
                    bad!("out.extra.hs", "conn {c} was never accepted, but received {}", show(&k.received));
                }
                continue;
            }
            let open = conn.srv_closed_seq.is_none();
            let reason = self.reason(c);
            let broken = self.broken(c);
            if !open {
                closed += 1;
                if k.cid.is_none() {
                    anon_closed += 1;
                }
                if !reason && !broken {
                    if k.cid.is_none() {
                        anon_reasonless += 1;
                    } else {
                        bad!("alive.closed", "conn {c} ({} mode) was closed by the server for no reason", k.mode.short());
                    }
                }
            } else {
                if conn.listener < self.resolved_listeners {
                    let failed = matches!(self.run.result, Some(Err(_)));
                    bad!(if failed { "accept.open" } else { "shut.open" }, "conn {c} is still open after the listener returned");
                }
                if let Some((_, why)) = k.ended {
                    let kind = match why {
                        "failed handshake" => "dead.open.hs",
                        "overlong reply" => "dead.open.overlong",
                        _ => "dead.open",
                    };
                    bad!(kind, "conn {c} has ended ({why}), but is still open");
                }
                if k.doomed.is_some() {
                    bad!("end.open", "conn {c} is still open although the lifetime of its client {:?} has ended", k.ident.as_ref().map(|i| &i.id));
                }
                if conn.eof_delivered {
                    bad!("dead.open", "conn {c} is still open although its client has left");
                }
                if broken {
                    bad!("dead.open", "conn {c} is still open although there was an I/O error ({:?})", conn.errs_delivered);
                }
                if matches!(k.mode, Mode::Msg | Mode::Out) {
                    connectors += 1;
                }
                if k.cid.is_none() {
                    unmapped_open.push(k.opened.unwrap_or(0).max(conn.settled_seq.unwrap_or(u64::MAX)));
                }
            }
            if broken && !reason {
                err_only += 1;
            }
            // nothing that arrived is left over
            let clean_eof = conn.eof_delivered
                && !broken
                && k.ended.is_none()
                && k.doomed.is_none()
                && !k.may_end
                && conn.listener >= self.resolved_listeners
                && !self.shutdown_possible()
                && !self.cids.values().any(|c| c.killed || c.pre_dead)
                && self.listener_errs().is_empty();
            let healthy = open && !reason && !broken;
            if healthy && conn.c2s.read as usize != k.sent.len() && !k.in_off {
                bad!(&format!("in.unread.{}", k.mode.short()), "conn {c}: {} bytes of its input are not read", k.sent.len() - conn.c2s.read as usize);
            }
            if (healthy || clean_eof) && !k.in_off {
                let rest = &k.sent[k.pos..];
                let suffix = if healthy { "" } else { "_at_eof" };
                match k.mode {
                    Mode::Hs | Mode::Msg => {
                        // what could still become a message may stay
                        match proto::parse(rest) {
                            Parsed::Incomplete => {}
                            _ => bad!(&format!("in.lost{suffix}.{}", k.mode.short()), "conn {c}: input is not handled: {}", show(rest)),
                        }
                    }
                    Mode::In => {
                        if !rest.is_empty() && healthy {
                            bad!("in.stdin", "conn {c}: input on a stdin connection has no consequence: {}", show(rest));
                        }
                    }
                    Mode::Out => {
                        if !rest.is_empty() {
                            bad!(&format!("stdout.lost{suffix}"), "conn {c}: {} bytes of output are not delivered: {}", rest.len(), show(rest));
                        }
                    }
                }
            }
            if healthy && (k.cid.is_some() || k.mode != Mode::Hs) && !k.out_off {
                let written = conn.s2c.written as usize;
                if written < k.expected.len() && conn.s2c.buf.len() < conn.s2c.cap {
                    let seg = k.segs.iter().find(|g| g.0 > written).map(|g| g.1).unwrap_or(Seg::Reply);
                    bad!(
                        &format!("out.stalled.{}", seg.short()),
                        "conn {c}: {} bytes are not sent although there is room: {}",
                        k.expected.len() - written,
                        show(&k.expected[written..k.expected.len().min(written + 100)])
                    );
                }
                if written > k.expected.len() {
                    bad!(&format!("out.extra.{}", k.mode.short()), "conn {c}: the server sent {} bytes more than what was enqueued", written - k.expected.len());
                }
            }
            if k.received.len() > k.expected.len() && k.cid.is_none() && k.mode == Mode::Hs {
                // messages enqueued during the handshake; we do not know yet for whom
                let ok = self.cids.values().any(|x| x.sock.is_none() && x.pre_out.starts_with(&k.received));
                if !ok {
                    bad!("out.extra.hs", "conn {c} did not complete a handshake, but received {}", show(&k.received));
                }
            }
        }
        let anon = self.anon_kills();
        if anon_reasonless > anon {
            bad!("alive.closed", "{anon_reasonless} connections in handshake mode were closed by the server for no reason");
        }
        if anon > anon_closed {
            bad!("dead.open", "{anon} connections in handshake mode were ended by broadcasts, only {anon_closed} are closed");
        }
        // notifications
        let accepted = self.accepted();
        if self.opened != accepted {
            bad!("note.open", "{accepted} connections accepted, {} reported as opened", self.opened);
        }
        if self.closed != closed {
            bad!("note.closed", "{closed} connections closed, {} reported", self.closed);
        }
        if err_only > self.ioerrs.len() {
            bad!("note.ioerr_missing", "{err_only} connections ended by I/O errors, {} reported", self.ioerrs.len());
        }
        if self.live_connectors != connectors {
            bad!("leak.connector", "{} connectors are alive, {connectors} connections have one", self.live_connectors);
        }
        // broadcasts
        let open: Vec<(u64, usize, u64)> = self
            .socks
            .iter()
            .filter(|(&c, k)| k.cid.is_some() && self.conn(c).accepted && self.conn(c).srv_closed_seq.is_none())
            .map(|(&c, k)| (k.cid.unwrap(), c, k.opened.unwrap_or(0).max(self.conn(c).settled_seq.unwrap_or(u64::MAX))))
            .collect();
        for id in self.bc_checked..self.bcs.len() {
            let start = self.bcs[id].start;
            if self.bcs[id].end.is_none() {
                bad!("stuck", "nothing is runnable, but enqueuing broadcast {id} has not returned");
            }
            for &(key, c, since) in &open {
                if since < start && !self.cids[&key].runs.contains(&id) {
                    bad!("bc.missed", "the server is idle, but broadcast {id} did not run on conn {c}");
                }
            }
            let need = unmapped_open.iter().filter(|&&q| q < start).count();
            let ran = self.cids.values().filter(|x| x.sock.is_none() && x.runs.contains(&id)).count();
            if ran < need {
                bad!("bc.missed", "the server is idle, but broadcast {id} ran only on {ran} of {need} connections in handshake mode");
            }
        }
        self.bc_checked = self.bcs.len();
    }

    /// Connections that are open at the server and still in their handshake.
    pub fn open_handshakes(&self) -> Vec<usize> {
        self.socks
            .iter()
            .filter(|(&c, k)| k.mode == Mode::Hs && k.cid.is_none() && self.healthy(c) && self.conn(c).cli_open && !self.conn(c).c2s.wr_closed)
            .map(|(&c, _)| c)
            .collect()
    }
}
