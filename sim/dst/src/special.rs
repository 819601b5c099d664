//! Scenarios other than clients against the server: discovery of the environment, credentials, the socket path, and the example
//! server as a whole program.

use crate::plan::*;
use crate::proto::{self, Parsed};
use simcore::fs::{Node, Nodes};
use simcore::net::{self, show, SockFault};
use simcore::{fd, now, quiesce, sim, sleep_ms, spawn_actor, spawn_thread, violate, yield_point};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::rc::Rc;

////////////////////////////////////////////////////////////////////////////////
// C15

pub fn discover(p: DiscoverPlan) {
    use vt6::client::Environment;
    let s = sim().unwrap();
    s.fd60 = fd::Fd60 { active: true, exists: p.exists, ..Default::default() };
    let mut rest = &p.data.0[..];
    let mut n = 0;
    let mut cuts = p.cuts.iter();
    loop {
        for &(_, e) in p.errs.iter().filter(|x| x.0 == n) {
            s.fd60.script.push_back(fd::FdEvent::Err(e));
        }
        if rest.is_empty() {
            break;
        }
        let k = match cuts.next() {
            None | Some(0) => rest.len(),
            Some(&k) => (k as usize).min(rest.len()),
        };
        s.fd60.script.push_back(fd::FdEvent::Data(rest[..k].to_vec()));
        rest = &rest[k..];
        n += 1;
    }
    for &(_, e) in p.errs.iter().filter(|x| x.0 > n) {
        s.fd60.script.push_back(fd::FdEvent::Err(e));
    }
    let r = Environment::discover();
    let s = sim().unwrap();
    let reads = s.fd60.reads.clone();
    s.hash_in(reads.iter().map(|&r| r as u64));
    let f = &s.fd60;
    let trace = |x: &str| {
        simcore::trace(|| x.to_string());
    };
    trace(&format!("reads: {:?}, closes: {}", f.reads, f.closes));
    for &r in &f.reads {
        if r == -(libc::EINTR as i64) {
            simcore::count("fault.read_eintr");
        } else if r < 0 {
            simcore::count("fault.read_error");
        } else if r > 0 {
            simcore::count("reach.reads");
        }
    }
    if f.exists && f.closes != 1 || f.closes > 1 {
        violate("discover.close", format!("descriptor 60 was closed {} times", f.closes));
    }
    if f.reads_after_close > 0 {
        violate("discover.close", "descriptor 60 was read after it had been closed".into());
    }
    // was every read justified?
    let mut have = 0usize;
    let mut over: Option<&str> = None;
    let mut failed: Option<i32> = None;
    let mut absent = !f.exists;
    // reading again after the end of input is pointless, but nobody can tell
    let mut ended = false;
    for &r in &f.reads {
        if let Some(why) = over {
            violate("discover.overread", format!("read on {why}: reads returned {:?}", f.reads));
        }
        if r < 0 {
            let e = -r as i32;
            if e == libc::EINTR {
                continue;
            }
            if have == 0 && (e == libc::EBADF || e == libc::EINVAL) {
                absent = true;
            } else {
                failed = Some(e);
            }
            over = Some("after an error");
        } else if r == 0 {
            ended = true;
        } else {
            have += r as usize;
            if proto::parse(&f.delivered[..have]) != Parsed::Incomplete {
                over = Some("although the announcement was complete or malformed");
            } else if have >= 1024 {
                over = Some("after 1024 bytes");
            }
        }
    }
    if over.is_none() && !ended && f.exists {
        violate("discover.early", format!("stopped reading although the announcement was not complete: {} ({:?})", show(&f.delivered), f.reads));
    }
    let delivered = f.delivered.clone();
    let env = match r {
        Err(e) => {
            if failed.is_none() || e.raw_os_error() != failed {
                violate("discover.error", format!("discover() failed with {e}; reads returned {:?}", f.reads));
            }
            simcore::count("reach.discover_error");
            return;
        }
        Ok(env) => {
            if let Some(e) = failed {
                violate("discover.error", format!("discover() succeeded although reading failed with errno {e}"));
            }
            env
        }
    };
    let exp = if absent {
        "none".to_string()
    } else {
        match proto::parse(&delivered) {
            Parsed::Msg(items, _) => {
                let it: Vec<&[u8]> = items.iter().map(|r| &delivered[r.0..r.1]).collect();
                if it[0] == b"posix1.parent-hello" && it.len() == 3 && proto::is_utf8(it[1]) {
                    format!("path {}", show(it[2]))
                } else {
                    "invalid".into()
                }
            }
            _ => "corrupt".into(),
        }
    };
    use vt6::client::EnvironmentError as E;
    let got = match env.parse() {
        Ok(r) => format!("path {}", show(r.server_socket_path().as_os_str().as_bytes())),
        Err(E::NoVT6Terminal) => "none".into(),
        Err(E::CorruptParentHello(_)) => "corrupt".into(),
        Err(E::InvalidParentHello(_)) => "invalid".into(),
    };
    match &exp[..4] {
        "none" => simcore::count("reach.discover_none"),
        "path" => simcore::count("reach.discover_path"),
        "inva" => simcore::count("reach.discover_invalid"),
        _ => simcore::count("reach.discover_corrupt"),
    }
    if got != exp {
        violate("discover.result", format!("result is \"{got}\", should be \"{exp}\": {} (reads {:?})", show(&delivered), sim().unwrap().fd60.reads));
    }
}

////////////////////////////////////////////////////////////////////////////////
// C16

struct Gen {
    secrets: Vec<String>,
    draws: usize,
}

fn generate(client: bool) -> Option<Gen> {
    let before = sim().unwrap().entropy.log.len();
    simcore::catch_panics(true);
    let r = std::panic::catch_unwind(|| {
        if client {
            vec![vt6::server::ClientCredentials::generate().secret().to_string()]
        } else {
            let c = vt6::server::ScreenCredentials::generate();
            vec![c.stdin_secret().to_string(), c.stdout_secret().to_string()]
        }
    });
    simcore::catch_panics(false);
    let draws = sim().unwrap().entropy.log.len() - before;
    match r {
        Ok(secrets) => Some(Gen { secrets, draws }),
        Err(_) => {
            simcore::count("reach.no_credential");
            None
        }
    }
}

pub fn creds(p: CredsPlan) {
    let seed = simcore::rng::mix(sim().unwrap().hash_seed, 77);
    let setup = |faults: bool| {
        let s = sim().unwrap();
        s.entropy = simcore::entropy::Entropy::new(seed);
        s.entropy.fixed = p.fixed.as_ref().map(|b| b.0.clone());
        if faults {
            s.entropy.short = p.short;
            s.entropy.eintr = p.eintr;
            s.entropy.fail_from = p.fail;
            s.entropy.fail_n = p.fail_n;
        }
    };
    setup(true);
    let mut all: Vec<(Gen, usize)> = Vec::new();
    for (i, &g) in p.gens.iter().enumerate() {
        let start = sim().unwrap().entropy.log.len();
        yield_point(simcore::site::APP);
        let need = need_of(g);
        match generate(g) {
            Some(x) => {
                simcore::count("reach.credentials");
                if x.draws < need {
                    violate("creds.draw", format!("credential {i} was produced from {} bytes of entropy", x.draws));
                }
                all.push((x, start));
            }
            None => {
                if p.fail.is_none() {
                    violate("creds.none", format!("no credential {i} although the entropy source works"));
                }
                if p.fail_n == 0 {
                    break;
                }
            }
        }
    }
    // every secret survives a message unchanged, and none occurs twice
    let log = sim().unwrap().entropy.log.clone();
    sim().unwrap().hash_in(log.iter().map(|&b| b as u64));
    let mut seen: BTreeMap<String, ()> = BTreeMap::new();
    for (g, _) in &all {
        for s in &g.secrets {
            if s.is_empty() {
                violate("creds.text", "empty secret".into());
            }
            use vt6::common::core::msg::{DecodeMessage, EncodeMessage, Message};
            let mut buf = [0u8; 1024];
            let ok = match (vt6::msg::posix::ClientHello { secret: s }).encode(&mut buf) {
                Ok(n) => match Message::parse(&buf[..n]) {
                    Ok((m, _)) => vt6::msg::posix::ClientHello::decode_message(&m).is_some_and(|h| h.secret == s),
                    Err(_) => false,
                },
                Err(_) => false,
            };
            if !ok {
                violate("creds.text", format!("secret {s:?} does not survive a message"));
            }
            if p.fixed.is_none() && seen.insert(s.clone(), ()).is_some() {
                violate("creds.repeat", format!("secret {s:?} occurs twice"));
            }
        }
    }
    // all of the drawn bits matter, and the two secrets of a screen have nothing to do with each other
    let done = all.len();
    if done < p.gens.len() || done == 0 {
        return;
    }
    let mut changes: Vec<(usize, Vec<(usize, u8)>, String)> = Vec::new();
    for &(which, bit) in &p.flips {
        let k = which as usize % done;
        let bit = bit as usize % (need_of(p.gens[k]) * 8);
        changes.push((k, vec![(bit / 8, 1 << (bit % 8))], format!("flipping bit {bit}")));
    }
    for &(which, at, x) in &p.subs {
        let k = which as usize % done;
        let at = at as usize % need_of(p.gens[k]);
        changes.push((k, vec![(at, x)], format!("changing byte {at} by {x:#04x}")));
    }
    for &(which, a, b) in &p.swaps {
        let k = which as usize % done;
        let half = if p.gens[k] { 0 } else { a as usize % 2 * 24 };
        let (a, b) = (half + a as usize / 2 % 24, half + b as usize % 24);
        let x = log[all[k].1 + a] ^ log[all[k].1 + b];
        if x != 0 {
            changes.push((k, vec![(a, x), (b, x)], format!("swapping bytes {a} and {b}")));
        }
    }
    for (k, bytes, what) in changes {
        let swap = bytes.len() > 1;
        setup(false);
        sim().unwrap().entropy.perturb = bytes.iter().map(|&(o, m)| (all[k].1 + o, m)).collect();
        let mut last = None;
        for &g in &p.gens[..=k] {
            last = generate(g);
        }
        let Some(x) = last else {
            violate("creds.none", "no credential although the entropy source works".into());
            return;
        };
        simcore::count("fault.entropy_perturbed");
        let old = &all[k].0.secrets;
        let changed = old.iter().zip(&x.secrets).filter(|(a, b)| a != b).count();
        if changed == 0 || changed != 1 && !swap {
            violate("creds.influence", format!("{what} of the entropy drawn for credential {k} changes {changed} of its {} secrets", old.len()));
        }
    }
}

/// bytes of entropy for a client's or a screen's credentials
fn need_of(client: bool) -> usize {
    if client {
        24
    } else {
        48
    }
}

////////////////////////////////////////////////////////////////////////////////
// C19

pub fn path(p: PathPlan) {
    let s = sim().unwrap();
    s.fs.put(b"/vt6sim", Node::Dir);
    for d in &p.dirs {
        s.fs.put(&d.0, Node::Dir);
    }
    for f in &p.files {
        s.fs.put(&f.0, Node::File);
    }
    for (l, to) in &p.links {
        s.fs.nodes.insert(simcore::fs::norm(&l.0), Node::Link(to.0.clone()));
    }
    s.fs.fail_mkdir = p.fail_mkdir;
    s.fs.fail_stat = p.fail_stat;
    s.fs.race_mkdir = p.race_mkdir;
    s.fs.race_file = p.race_file;
    let before = s.fs.nodes.clone();
    match &p.var {
        Some(v) => std::env::set_var("XDG_RUNTIME_DIR", std::ffi::OsString::from_vec(v.0.clone())),
        None => std::env::remove_var("XDG_RUNTIME_DIR"),
    }
    let results: Rc<RefCell<Vec<(std::io::Result<std::path::PathBuf>, bool)>>> = Rc::default();
    for i in 0..p.times.max(1) {
        let results = results.clone();
        spawn_thread(format!("process{i}"), move || {
            let r = vt6::server::default_socket_path();
            let usable = match &r {
                Ok(p) => p.parent().is_some_and(|d| sim().unwrap().fs.node(d.as_os_str().as_bytes()) == Some(&Node::Dir)),
                Err(_) => true,
            };
            results.borrow_mut().push((r, usable));
        });
    }
    quiesce();
    let s = sim().unwrap();
    for (op, path, e) in &s.fs.log {
        simcore::trace(|| format!("{op} {} -> {e}", show(path)));
        if !matches!(*op, "mkdir" | "stat") {
            violate("path.other", format!("{op} {}", show(path)));
        }
    }
    s.hash_in(s.fs.log.iter().map(|x| x.1.len() as u64 * 1000 + x.2 as u64).collect::<Vec<_>>().into_iter());
    let vt6 = p.var.as_ref().map(|v| [&v.0[..], b"/vt6"].concat());
    let is_dir = p.var.as_ref().is_some_and(|v| !v.0.is_empty() && before_dir(&before, &v.0));
    let stat_hit = s.stats.counts.contains_key("fault.stat_error");
    let results = results.borrow();
    if results.len() != p.times.max(1) as usize {
        violate("path.result", "a call did not return".into());
    }
    for (r, usable) in results.iter() {
        match r {
            Ok(path) => {
                simcore::count("reach.path_ok");
                let exp = vt6.as_ref().map(|v| [&v[..], format!("/{}", std::process::id()).as_bytes()].concat());
                let same = exp.as_ref().is_some_and(|e| std::path::Path::new(std::ffi::OsStr::from_bytes(e)) == path.as_path());
                if !is_dir {
                    violate("path.result", format!("a path was chosen although XDG_RUNTIME_DIR ({:?}) is not a directory", p.var));
                }
                if !same {
                    violate("path.result", format!("the path for XDG_RUNTIME_DIR={:?} does not have the documented form", p.var));
                }
                if !usable {
                    violate("path.result", "a path was chosen although its directory does not exist".into());
                }
            }
            Err(_) => {
                simcore::count("reach.path_error");
                let there = vt6.as_ref().and_then(|v| sim().unwrap().fs.node(v).cloned());
                let dangling = vt6.as_ref().is_some_and(|v| is_link(&before, v) && there.is_none());
                let excuse = !is_dir || stat_hit || there.as_ref().is_some_and(|n| *n != Node::Dir) || dangling || (p.fail_mkdir.is_some() && !before_has(&before, vt6.as_ref()));
                if !excuse {
                    violate("path.error", format!("error ({r:?}) although XDG_RUNTIME_DIR={:?} is a directory and nothing failed (vt6 directory: {there:?})", p.var));
                }
            }
        }
    }
    // nothing but the one directory has changed
    let after = &sim().unwrap().fs.nodes;
    for (k, n) in &before {
        if after.get(k) != Some(n) {
            violate("path.other", format!("{} has changed from {n:?} to {:?}", show(k), after.get(k)));
        }
    }
    for (k, n) in after.iter().filter(|(k, _)| !before.contains_key(*k)) {
        let ours = vt6.as_ref().is_some_and(|v| sim().unwrap().fs.node(v).is_some() && v.ends_with(b"/vt6") && real(after, v, false).as_ref() == Some(k));
        let raced = *n == Node::File && p.race_file;
        if !is_dir || !ours || (*n != Node::Dir && !raced) {
            violate("path.other", format!("{} was created ({n:?})", show(k)));
        }
    }
}
fn real(nodes: &Nodes, p: &[u8], follow: bool) -> Option<Vec<u8>> {
    simcore::fs::resolve(nodes, p, follow).ok()
}
fn is_link(nodes: &Nodes, p: &[u8]) -> bool {
    real(nodes, p, false).is_some_and(|k| matches!(nodes.get(&k), Some(Node::Link(_))))
}
fn before_dir(nodes: &Nodes, p: &[u8]) -> bool {
    real(nodes, p, true).is_some_and(|k| nodes.get(&k) == Some(&Node::Dir))
}
fn before_has(nodes: &Nodes, p: Option<&Vec<u8>>) -> bool {
    p.is_some_and(|p| before_dir(nodes, p))
}

////////////////////////////////////////////////////////////////////////////////
// C17

const GREETING: &[u8] = b"Hello stdin.\n";

#[derive(Default)]
struct XSock {
    sent: Vec<u8>,
    received: Vec<u8>,
    reading: bool,
    /// sequence number of the connection attempt
    born: u64,
    /// when the first message was complete
    hello_at: Option<u64>,
    slow: bool,
    /// its first message is (or will be) a hello with a secret that nobody was told
    near: Option<Vec<u8>>,
}
#[derive(Default)]
struct Ex {
    hellos: Vec<Vec<u8>>,
    logs: Vec<(u64, String)>,
    socks: BTreeMap<usize, XSock>,
    exit: Option<String>,
    interrupted: bool,
    out: Vec<u8>,
    /// secrets issued by client-new
    issued: Vec<Issued>,
    /// IDs for which somebody (has started to) request the end
    ending: Vec<String>,
    idle_at: u64,
}
struct Issued {
    reg: ClientReg,
    /// its lifetime had certainly ended by then
    dead: Option<u64>,
}
thread_local! {
    static EX: Cell<*mut Ex> = const { Cell::new(std::ptr::null_mut()) };
}
fn ex() -> Option<&'static mut Ex> {
    // SAFETY: leaked, single thread
    unsafe { EX.with(|e| e.get()).as_mut() }
}

/// Called by the logger of the process.
pub fn on_log(line: &str) {
    let Some(e) = ex() else { return };
    let _g = simcore::alloc::harness();
    yield_point(simcore::site::APP);
    simcore::trace(|| format!("log: {line}"));
    e.logs.push((now(), line.to_string()));
    if e.hellos.is_empty() {
        e.hellos = vec![Vec::new(); 3];
    }
    if let Parsed::Msg(items, len) = proto::parse(line.as_bytes()) {
        let ty = &line.as_bytes()[items[0].0..items[0].1];
        let known: [&[u8]; 3] = [b"posix1.stdin-hello", b"posix1.stdout-hello", b"posix1.client-hello"];
        if let Some(i) = known.iter().position(|k| *k == ty) {
            if e.hellos[i].is_empty() {
                e.hellos[i] = line.as_bytes()[..len].to_vec();
            }
        }
    }
    if line.starts_with("stdout received") {
        if let (Some(a), Some(b)) = (line.find('"'), line.rfind('"')) {
            e.out.extend(unescape(&line[a + 1..b]));
            check_example_out(e);
        }
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('t') => out.push('\t'),
            Some('r') => out.push('\r'),
            Some('0') => out.push('\0'),
            Some('u') => {
                let hex: String = it.by_ref().skip(1).take_while(|&c| c != '}').collect();
                out.push(u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32).unwrap_or('?'));
            }
            Some(c) => out.push(c),
            None => {}
        }
    }
    out.into_bytes()
}

fn first_is(e: &Ex, s: &XSock, k: usize) -> bool {
    e.hellos.get(k).is_some_and(|h| !h.is_empty() && s.sent.starts_with(h))
}

fn check_example_out(e: &Ex) {
    // what has been logged must be a prefix of what one stdout client sent after its hello
    let ok = e.out.is_empty()
        || e.socks.values().any(|s| first_is(e, s, 1) && s.sent[e.hellos[1].len()..].starts_with(&e.out));
    if !ok {
        violate("ex.stdout", format!("logged output is not what a stdout client sent: {}", show(&e.out)));
    }
}

fn example_idle() {
    let e = ex().unwrap();
    let s = sim().unwrap();
    e.idle_at = now();
    check_example_out(e);
    let mut admitted = [0; 3];
    let mut waiting = [0i32; 3];
    let mut learned: Vec<ClientReg> = Vec::new();
    let mut over: Vec<(usize, String)> = Vec::new();
    for (&c, k) in e.socks.iter() {
        let conn = &s.net.conns[c];
        for i in 0..3 {
            if !first_is(e, k, i) || !conn.accepted {
                continue;
            }
            let alive = conn.srv_closed_seq.is_none();
            let got = match i {
                0 => k.received.starts_with(b"Hello") || alive,
                1 => alive,
                _ => !k.received.is_empty() || alive,
            };
            if got {
                admitted[i] += 1;
            }
            // (unless nobody can tell that it was admitted)
            waiting[i] += if !k.reading || (i == 0 && k.sent.len() > e.hellos[0].len()) { -1000 } else { 1 };
            match i {
                0 => {
                    let n = k.received.len();
                    let want: Vec<u8> = GREETING.iter().cycle().take(n).copied().collect();
                    if k.received != want {
                        violate("ex.greeting", format!("conn {c}: stdin client received {}", show(&k.received)));
                        return;
                    }
                    if alive && k.reading && !k.slow && !e.interrupted && conn.errs_delivered.is_empty() {
                        let ns = now() - k.hello_at.unwrap_or(now());
                        let secs = ns / 1_000_000_000;
                        // a timer that is due right now may still fire
                        let least = ns.saturating_sub(1) / 1_000_000_000;
                        let g = (n / GREETING.len()) as u64;
                        if n % GREETING.len() != 0 || g < least || g > secs + 1 {
                            violate("ex.greeting", format!("conn {c}: {n} bytes of greetings after {secs} seconds"));
                            return;
                        }
                    }
                }
                1 => {
                    if !k.received.is_empty() {
                        violate("ex.output", format!("conn {c}: stdout client received {}", show(&k.received)));
                        return;
                    }
                    let whole = alive || conn.eof_delivered;
                    let rest = &k.sent[e.hellos[1].len()..];
                    // its output is logged (unless somebody else had been admitted before)
                    if alive && whole && !e.interrupted && e.out != rest {
                        violate("ex.stdout", format!("conn {c}: sent {}, logged {}", show(rest), show(&e.out)));
                        return;
                    }
                }
                _ => {
                    let own = ClientReg { id: "a".into(), stdin: None, stdout: None, stderr: None, secret: String::new() };
                    let all = alive && k.reading && !e.interrupted;
                    let Some((new, ended)) = check_dialog(c, k, &own, all) else { return };
                    learned.extend(new);
                    if all {
                        over.extend(ended);
                    }
                }
            }
        }
    }
    for i in 0..3 {
        let what = ["stdin", "stdout", "message"][i];
        if admitted[i] > 1 {
            violate("ex.admit", format!("{} {what} connections were admitted", admitted[i]));
            return;
        }
        if admitted[i] == 0 && waiting[i] > 0 && !e.interrupted {
            violate("ex.refused", format!("no {what} connection was admitted, {} had a valid hello", waiting[i]));
            return;
        }
    }
    example_children(e, learned, over);
}

/// Replays what a message client has sent against the prescribed answers. Returns the clients it has created, in order, and (with
/// the number of clients created before) the lifetimes it has ended; None after a violation. `all`: everything has been answered.
#[allow(clippy::type_complexity)]
fn check_dialog(c: usize, k: &XSock, own: &ClientReg, all: bool) -> Option<(Vec<ClientReg>, Vec<(usize, String)>)> {
    let o = |s: &Option<String>| s.clone().unwrap_or_default();
    let hello = ["posix1.server-hello".to_string(), own.id.clone(), o(&own.stdin), o(&own.stdout), o(&own.stderr)];
    let mut want = proto::encode(&hello);
    let mut new: Vec<ClientReg> = Vec::new();
    let mut ended: Vec<(usize, String)> = Vec::new();
    let mut registry: Vec<String> = vec!["a".into()];
    let mut at = 0;
    let mut n = 0;
    while let Parsed::Msg(items, len) = proto::parse(&k.sent[at..]) {
        let items: Vec<Vec<u8>> = items.iter().map(|r| k.sent[at + r.0..at + r.1].to_vec()).collect();
        at += len;
        n += 1;
        let before = want.len();
        if n == 1 {
            continue;
        }
        let nope = proto::encode(&[b"nope".to_vec(), items[0].clone()]);
        let have = |m: &[u8]| {
            let mut m = m.to_vec();
            if m == b"core1" || m == b"posix1" {
                m.extend_from_slice(b".0");
            }
            proto::encode(&[b"have".to_vec(), m])
        };
        match &items[0][..] {
            b"want" if items.len() == 2 && proto::is_module(&items[1]) => want.extend(have(&items[1])),
            b"want" | b"have" | b"nope" | b"posix1.stdin-hello" | b"posix1.stdout-hello" | b"posix1.client-hello" => want.extend(nope),
            b"core1.client-make" => match crate::world::World::make_of(&items) {
                Some(mut m) if proto::strictly_below(&m.id, &own.id) && !registry.iter().any(|r| proto::at_or_below(r, &m.id)) => {
                    let got = &k.received[want.len().min(k.received.len())..];
                    match proto::parse(got) {
                        Parsed::Msg(i, len) if i.len() == 2 && &got[i[0].0..i[0].1] == b"core1.client-new" && i[1].1 > i[1].0 => {
                            want.extend_from_slice(&got[..len]);
                            m.secret = String::from_utf8_lossy(&got[i[1].0..i[1].1]).into_owned();
                            registry.push(m.id.clone());
                            new.push(m);
                        }
                        Parsed::Incomplete if !all => return Some((new, ended)),
                        _ => {
                            let again = ended.iter().any(|x| proto::at_or_below(&m.id, &x.1));
                            violate(if again { "ex.again" } else { "ex.dialog" }, format!("conn {c}: no client-new in answer to {}: {}", crate::world::World::show_items(&items), show(got)));
                            return None;
                        }
                    }
                }
                _ => want.extend(nope),
            },
            b"core1.client-end" => match crate::world::World::end_of(&items) {
                Some(id) if proto::strictly_below(&id, &own.id) => {
                    registry.retain(|r| !proto::at_or_below(r, &id));
                    ended.push((new.len(), id));
                }
                _ => want.extend(nope),
            },
            t => match proto::scoped(t) {
                Some((m, _)) => want.extend(have(m)),
                None => return Some((new, ended)),
            },
        }
        if want.len() - before > proto::MAX_MSG {
            // ends the connection
            want.truncate(before);
            break;
        }
    }
    let len = k.received.len().min(want.len());
    if k.received[..len] != want[..len] || k.received.len() > want.len() {
        violate("ex.dialog", format!("conn {c}: message client received {}, should be {}", show(&k.received), show(&want)));
        return None;
    }
    if all && k.received.len() < want.len() {
        violate("ex.dialog", format!("conn {c}: message client has received only {} of {}", show(&k.received), show(&want)));
        return None;
    }
    if all && n > 1 {
        simcore::count("reach.example_dialog");
    }
    Some((new, ended))
}

/// Clients created over the message connection of the example.
fn example_children(e: &mut Ex, learned: Vec<ClientReg>, over: Vec<(usize, String)>) {
    let s = sim().unwrap();
    for reg in learned {
        if !e.issued.iter().any(|i| i.reg.secret == reg.secret) {
            e.issued.push(Issued { reg, dead: None });
        }
    }
    let q = simcore::next_seq();
    for (n, id) in over {
        for i in e.issued.iter_mut().take(n) {
            if proto::at_or_below(&i.reg.id, &id) && i.dead.is_none() {
                i.dead = Some(q);
            }
        }
    }
    for (&c, k) in e.socks.iter() {
        let known = (0..3).any(|i| first_is(e, k, i))
            || e.issued.iter().any(|i| k.sent.starts_with(&proto::encode(&["posix1.client-hello", &i.reg.secret])));
        if !known && !k.received.is_empty() {
            violate("ex.admit", format!("conn {c} without a valid hello received {}", show(&k.received)));
            return;
        }
        if let Some(n) = k.near.as_ref().filter(|n| k.sent.starts_with(n)) {
            if s.net.conns[c].accepted && s.net.conns[c].srv_closed_seq.is_none() && !e.interrupted {
                violate("ex.admit", format!("conn {c} is still open after {}", show(n)));
                return;
            }
        }
    }
    for i in e.issued.iter() {
        let hello = proto::encode(&["posix1.client-hello", &i.reg.secret]);
        let mut admitted = 0;
        let mut tries = 0;
        for (&c, k) in e.socks.iter().filter(|(_, k)| k.sent.starts_with(&hello)) {
            let conn = &s.net.conns[c];
            if !conn.accepted {
                continue;
            }
            tries += 1;
            let alive = conn.srv_closed_seq.is_none();
            if !k.received.is_empty() || alive {
                admitted += 1;
                simcore::count("reach.example_child");
                if i.dead.is_some_and(|d| k.born > d) {
                    violate("ex.end", format!("conn {c} was admitted as client {}, whose lifetime had ended", i.reg.id));
                    return;
                }
            }
            if alive && i.dead.is_some() && !e.interrupted {
                violate("ex.end", format!("conn {c} is still open, the lifetime of its client {} has ended", i.reg.id));
                return;
            }
            if check_dialog(c, k, &i.reg, alive && k.reading && !e.interrupted).is_none() {
                return;
            }
        }
        if admitted > 1 {
            violate("ex.admit", format!("{admitted} connections were admitted as client {}", i.reg.id));
            return;
        }
        if admitted == 0 && tries > 0 && i.dead.is_none() && !e.interrupted && !e.ending.iter().any(|x| proto::at_or_below(&i.reg.id, x)) {
            // unless it went away before it was answered
            let gone = e.socks.iter().any(|(_, k)| k.sent.starts_with(&hello) && !k.reading);
            if !gone {
                violate("ex.refused", format!("no connection with the secret of client {} was admitted", i.reg.id));
                return;
            }
        }
    }
}

/// See `XOp::Near`.
fn near(of: u32, kind: u32, how: u32) -> Option<Vec<u8>> {
    let e = ex().unwrap();
    let announced = |k: usize| match proto::parse(e.hellos.get(k)?) {
        Parsed::Msg(items, _) if items.len() == 2 => Some(e.hellos[k][items[1].0..items[1].1].to_vec()),
        _ => None,
    };
    let real = match of {
        3 => e.issued.last()?.reg.secret.clone().into_bytes(),
        k => announced(k as usize)?,
    };
    let n = real.len();
    if n == 0 || !real.is_ascii() {
        return None;
    }
    let at = how as usize / 12 % n;
    let mut v = real.clone();
    match how % 12 {
        0 => v.clear(),
        1 => v.truncate(n - 1),
        2 => drop(v.remove(0)),
        3 => v.push(b'A'),
        4 => v.insert(0, b'A'),
        5 => v.iter_mut().for_each(|b| *b ^= if b.is_ascii_alphabetic() { 0x20 } else { 0 }),
        6 => v[at] = if v[at] == b'A' { b'B' } else { b'A' },
        7 => v.truncate(at),
        8 => v.push(b' '),
        9 => v.extend_from_slice(&real),
        10 => v[n - 1] = if v[n - 1] == b'A' { b'B' } else { b'A' },
        _ => {}
    }
    // it must be good for nothing
    let bad = match kind {
        2 => announced(2)? == v || e.issued.iter().any(|i| i.reg.secret.as_bytes() == v),
        k => announced(k as usize)? == v,
    };
    if bad {
        return None;
    }
    simcore::count("reach.example_near");
    let ty = ["posix1.stdin-hello", "posix1.stdout-hello", "posix1.client-hello"][kind as usize];
    Some(proto::encode(&[ty.as_bytes(), &v]))
}

fn socket_path() -> Option<Vec<u8>> {
    sim().unwrap().fs.nodes.iter().find(|(_, n)| matches!(n, Node::Socket(_))).map(|(p, _)| p.clone())
}

fn xclient(p: XClient) {
    sleep_ms(p.start as u64);
    let mut tries = 0;
    let c = loop {
        let r = match socket_path() {
            Some(path) => net::connect(&path, SockFault::default()),
            None => Err(libc::ENOENT),
        };
        match r {
            Ok(c) => break c,
            Err(_) if tries < 20 => {
                tries += 1;
                sleep_ms(1);
            }
            Err(_) => return,
        }
    };
    let e = ex().unwrap();
    e.socks.insert(c, XSock { slow: p.rd_max > 0, born: simcore::next_seq(), ..Default::default() });
    if !p.no_read {
        e.socks.get_mut(&c).unwrap().reading = true;
        spawn_actor(format!("xreader{c}"), move || loop {
            let max = if p.rd_max == 0 || sim().unwrap().relaxed { 4096 } else { p.rd_max as usize };
            match net::client_read(c, max) {
                Ok(d) if d.is_empty() => return,
                Ok(d) => ex().unwrap().socks.get_mut(&c).unwrap().received.extend_from_slice(&d),
                Err(_) => return,
            }
            yield_point(simcore::site::CLIENT);
        });
    }
    for op in &p.ops {
        yield_point(simcore::site::CLIENT);
        let data = match op {
            XOp::Hello(k) => match ex().unwrap().hellos.get(*k as usize) {
                Some(h) if !h.is_empty() => h.clone(),
                _ => continue,
            },
            XOp::Near(of, kind, how) => {
                let Some(hello) = near(*of, *kind, *how) else { continue };
                let k = ex().unwrap().socks.get_mut(&c).unwrap();
                if k.sent.is_empty() {
                    k.near = Some(hello.clone());
                }
                hello
            }
            XOp::Raw(b) => b.0.clone(),
            XOp::Make(id) => proto::encode(&["core1.client-make", id, "screen1", "", "x"]),
            XOp::End(id) => {
                ex().unwrap().ending.push(id.clone());
                proto::encode(&["core1.client-end", id])
            }
            XOp::HelloMade(id, newest) => {
                let mut tries = 0;
                let secret = loop {
                    let mut it = ex().unwrap().issued.iter().filter(|i| i.reg.id == *id);
                    match if *newest { it.next_back() } else { it.next() } {
                        Some(i) => break Some(i.reg.secret.clone()),
                        None if tries < 10 => {
                            tries += 1;
                            sleep_ms(1);
                        }
                        None => break None,
                    }
                };
                match secret {
                    Some(s) => proto::encode(&["posix1.client-hello", &s]),
                    None => continue,
                }
            }
            XOp::Sleep(ms) => {
                sleep_ms(*ms as u64);
                continue;
            }
            XOp::Close => {
                net::client_close(c);
                ex().unwrap().socks.get_mut(&c).unwrap().reading = false;
                return;
            }
        };
        let mut rest = &data[..];
        while !rest.is_empty() {
            match net::client_write_some(c, rest) {
                Ok(n) => {
                    let e = ex().unwrap();
                    let first = e.hellos.clone();
                    let k = e.socks.get_mut(&c).unwrap();
                    k.sent.extend_from_slice(&rest[..n]);
                    if k.hello_at.is_none() && first.iter().any(|h| !h.is_empty() && k.sent.starts_with(h)) {
                        k.hello_at = Some(now());
                    }
                    rest = &rest[n..];
                }
                Err(_) => return,
            }
        }
    }
}

/// Without standard error (where the standard library reports the error that main returned).
fn quietly<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let saved = libc::dup(2);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 2);
        libc::close(null);
        let r = f();
        libc::dup2(saved, 2);
        libc::close(saved);
        r
    }
}

pub fn example(p: ExamplePlan) {
    let s = sim().unwrap();
    s.fs.put(b"/vt6sim", Node::Dir);
    if !p.dir_missing {
        s.fs.put(b"/vt6sim/run", Node::Dir);
        if p.vt6_exists {
            s.fs.put(b"/vt6sim/run/vt6", Node::Dir);
        }
    }
    std::env::set_var("XDG_RUNTIME_DIR", "/vt6sim/run");
    EX.with(|e| e.set(Box::into_raw(Box::default())));
    simtokio::signal::reset();
    simtokio::task::reset();
    simcore::set_on_idle(Box::new(example_idle));
    let refused = p.dir_missing;
    spawn_thread("example", move || {
        use std::process::Termination;
        let r = {
            let _s = simcore::alloc::server();
            let r = example::run_main();
            quietly(|| r.report())
        };
        simcore::trace(|| format!("main returned {r:?}"));
        let e = ex().unwrap();
        e.exit = Some(format!("{r:?}"));
        if !e.interrupted && !refused {
            violate("ex.exit", format!("the program ends with {r:?} although it was not interrupted"));
        }
        if !refused && (e.hellos.is_empty() || e.hellos.iter().any(|h| h.is_empty())) {
            violate("ex.announce", "the program did not announce a message, a stdin and a stdout secret".into());
        }
    });
    for (i, c) in p.clients.iter().enumerate() {
        let c = c.clone();
        spawn_actor(format!("client{i}"), move || xclient(c));
    }
    // the interrupts; each waits until the program is ready for it
    let mut t = 0;
    for &at in &p.interrupt {
        if at > t {
            sleep_ms((at - t) as u64);
            t = at;
        }
        let mut tries = 0;
        while !simtokio::signal::is_handled(2) && ex().unwrap().exit.is_none() && tries < 50 {
            tries += 1;
            sleep_ms(1);
            t += 1;
        }
        if simtokio::signal::is_handled(2) {
            ex().unwrap().interrupted = true;
            simcore::count("fault.interrupt");
            simtokio::signal::raise(2);
        }
        yield_point(simcore::site::APP);
    }
    // at most the rest of the second until nothing is left to do
    for _ in 0..5 {
        if ex().unwrap().exit.is_some() {
            break;
        }
        sleep_ms(1);
    }
    let e = ex().unwrap();
    let ok = format!("{:?}", std::process::ExitCode::SUCCESS);
    match &e.exit {
        None => violate("ex.exit", "the program does not end after an interrupt".into()),
        Some(x) if p.dir_missing => {
            simcore::count("reach.example_refused");
            if *x == ok {
                violate("ex.exit", "the program succeeds although there is no place for its socket".into());
            }
        }
        Some(x) => {
            if *x != ok {
                violate("ex.exit", format!("the program ends with {x} after an interrupt"));
            }
            simcore::count("reach.example_ended");
        }
    }
    if let Some(f) = socket_path() {
        let _ = f;
        violate("ex.file", "the program has left its socket file behind".into());
    }
    // who should have been admitted was
    let s = sim().unwrap();
    let n: u64 = s.net.conns.iter().filter(|c| c.accepted).count() as u64;
    s.add("conns", n);
    let greet: u64 = e.socks.values().map(|k| k.received.len() as u64).sum();
    s.add("reach.greeting_bytes", greet);
}

pub fn discard() {
    EX.with(|e| {
        let p = e.replace(std::ptr::null_mut());
        if !p.is_null() {
            // SAFETY: created by Box::into_raw in `example`, and nothing runs any more
            drop(unsafe { Box::from_raw(p) });
        }
    });
}
