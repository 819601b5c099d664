//! Scenario: clients and application threads against the server.

use crate::app::{self, SimApp, Token, TD};
use crate::plan::*;
use crate::proto;
use crate::world::{self, w, World};
use simcore::net::{self, SockFault};
use simcore::{alloc, block, quiesce, sim, sleep_ms, sleep_ns, violate, yield_point, Block};
use std::sync::Arc;

pub const DIR: &[u8] = b"/vt6sim/run";
pub const PATH: &[u8] = b"/vt6sim/run/sock";

pub fn path_str() -> &'static str {
    std::str::from_utf8(PATH).unwrap()
}

pub fn secret(s: &Secret) -> Vec<u8> {
    let made;
    let s = match s {
        Secret::Named(n) => {
            made = Secret::Made(crate::session::name(n).unwrap_or_default());
            &made
        }
        s => s,
    };
    let w = w();
    match s {
        Secret::Root(n) => w.plan.roots.get(*n).map(|r| r.secret.clone().into_bytes()).unwrap_or_default(),
        Secret::In(n) => w.plan.screens.get(*n).map(|r| r.stdin_secret.clone().into_bytes()).unwrap_or_default(),
        Secret::Out(n) => w.plan.screens.get(*n).map(|r| r.stdout_secret.clone().into_bytes()).unwrap_or_default(),
        Secret::Made(id) => w
            .issued
            .iter()
            .rev()
            .find(|x| x.0 == *id)
            .map(|x| x.1.clone().into_bytes())
            .unwrap_or_else(|| b"not-made".to_vec()),
        Secret::Lit(b) => b.0.clone(),
        Secret::Named(_) => unreachable!(),
    }
}

/// Writes everything (or as much as the connection takes); false if it is broken.
fn write_all(c: usize, mut data: &[u8]) -> bool {
    while !data.is_empty() {
        match net::client_write_some(c, data) {
            Ok(n) => {
                w().socks.get_mut(&c).unwrap().sent.extend_from_slice(&data[..n]);
                data = &data[n..];
            }
            Err(_) => {
                simcore::count("reach.client_write_failed");
                return false;
            }
        }
    }
    true
}

fn reader(ci: usize, c: usize, p: ClientP) {
    let mut undecoded = Vec::new();
    loop {
        let max = if p.rd_max == 0 || sim().unwrap().relaxed { 65536 } else { p.rd_max as usize };
        while w().clients[ci].paused {
            block(Block::Io);
        }
        match net::client_read(c, max) {
            Ok(d) if d.is_empty() => return,
            Ok(d) => {
                w().on_received(c, &d);
                if p.lib {
                    undecoded.extend_from_slice(&d);
                    crate::session::receive(c, &mut undecoded);
                }
            }
            Err(_) => return,
        }
        if p.rd_sleep > 0 && !sim().unwrap().relaxed {
            sleep_ns(p.rd_sleep as u64 * 100_000);
        } else {
            yield_point(simcore::site::CLIENT);
        }
    }
}

/// false: nothing more can be sent
fn perform(ci: usize, c: usize, op: &COp) -> bool {
    yield_point(simcore::site::CLIENT);
    match op {
        COp::Msg(items) => write_all(c, &proto::encode(items)),
        COp::Raw(b) => write_all(c, &b.0),
        COp::Hello(kind, s) => {
            let ty = match kind {
                HelloKind::Stdin => "posix1.stdin-hello",
                HelloKind::Stdout => "posix1.stdout-hello",
                HelloKind::Client => "posix1.client-hello",
            };
            let s = secret(s);
            write_all(c, &proto::encode(&[ty.as_bytes(), &s]))
        }
        COp::Lib(m, tight) => match crate::session::message(m, *tight) {
            Some(b) => write_all(c, &b),
            None => true,
        },
        COp::Flood(items, n) => {
            let one = proto::encode(items);
            let mut all = Vec::with_capacity(one.len() * *n as usize);
            for _ in 0..*n {
                all.extend_from_slice(&one);
            }
            write_all(c, &all)
        }
        COp::Fill(n) => {
            let d = w().fill_bytes(*n as usize);
            write_all(c, &d)
        }
        COp::Sleep(ms) => {
            sleep_ms(*ms as u64);
            true
        }
        COp::Sync => {
            sleep_ms(1);
            true
        }
        COp::PauseRead => {
            w().clients[ci].paused = true;
            true
        }
        COp::ResumeRead => {
            resume(ci);
            true
        }
        COp::ShutdownWrite => {
            net::client_shutdown_write(c);
            true
        }
        COp::Close => {
            net::client_close(c);
            simcore::count("reach.client_close");
            false
        }
    }
}

fn client(ci: usize, p: ClientP) {
    if p.start > 0 {
        sleep_ms(p.start as u64);
    }
    let fault = SockFault { read_err: p.read_err, write_err: p.write_err };
    let mut tries = 0;
    let path = match p.announced {
        Some((ref s, ref cuts)) => crate::session::announced(s, cuts),
        None => PATH.to_vec(),
    };
    let c = loop {
        match net::connect(&path, fault.clone()) {
            Ok(c) => break c,
            Err(_) if tries < 30 => {
                tries += 1;
                sleep_ms(1);
            }
            Err(_) => {
                simcore::count("reach.connect_failed");
                w().clients[ci].writer_done = true;
                return;
            }
        }
    };
    w().add_sock(c, ci);
    w().clients[ci].sock = Some(c);
    if !p.no_read {
        let q = p.clone();
        let t = simcore::spawn_actor(format!("reader{ci}"), move || reader(ci, c, q));
        w().clients[ci].reader = Some(t);
    }
    for op in p.ops.iter() {
        if !perform(ci, c, op) {
            break;
        }
    }
    w().clients[ci].writer_done = true;
}

/// What somebody who stays does in one round.
fn resident(ci: usize, p: Resident, first: bool) {
    let c = match w().clients[ci].sock {
        Some(c) => c,
        None if !first => return,
        None => {
            let mut tries = 0;
            let c = loop {
                match net::connect(PATH, SockFault::default()) {
                    Ok(c) => break c,
                    Err(_) if tries < 30 => {
                        tries += 1;
                        sleep_ms(1);
                    }
                    Err(_) => return,
                }
            };
            simcore::count("reach.resident");
            w().add_sock(c, ci);
            w().clients[ci].sock = Some(c);
            let t = simcore::spawn_actor(format!("reader{ci}"), move || reader(ci, c, ClientP::default()));
            w().clients[ci].reader = Some(t);
            if !perform(ci, c, &COp::Hello(p.hello, p.secret.clone())) {
                return;
            }
            c
        }
    };
    if let (Some(n), Some(d)) = (p.cast, w().dispatch.clone()) {
        if n < w().plan.acts.len() {
            app::cast(&d, n);
        }
    }
    let _ = p.ops.iter().all(|op| perform(ci, c, op));
    w().clients[ci].writer_done = true;
}

fn resume(ci: usize) {
    let st = &mut w().clients[ci];
    st.paused = false;
    if let Some(t) = st.reader {
        simcore::unblock(t);
    }
}

fn app_thread(p: AppP) {
    if p.start > 0 {
        sleep_ms(p.start as u64);
    }
    for op in p.ops {
        match op {
            AOp::Cast(n) => {
                if n < w().plan.acts.len() {
                    if let Some(d) = w().dispatch.clone() {
                        app::cast(&d, n);
                    }
                }
            }
            AOp::Sleep(ms) => sleep_ms(ms as u64),
            AOp::Yield => yield_point(simcore::site::YIELD),
            AOp::Shutdown => app::shutdown(),
        }
    }
}

async fn run_listener(d: TD) -> std::io::Result<()> {
    d.run_listener().await
}

fn start_listener(d: &TD) {
    let s = sim().unwrap();
    let before = s.fs.node(PATH).cloned();
    let n = s.net.listeners.len();
    w().on_run_start();
    let d = d.clone();
    let _s = alloc::server();
    simcore::spawn_task(async move {
        let r = {
            let f = run_listener(d);
            f.await
        };
        let _g = alloc::harness();
        w().on_resolved(PATH, before, n, r);
    });
}

/// Runs the listener of this dispatch although it is running. The path is in use, so that must fail, and change nothing.
fn intrude(d: &TD) {
    let s = sim().unwrap();
    let Some(node @ simcore::fs::Node::Socket(l)) = s.fs.node(PATH).cloned() else { return };
    if w().run.result.is_some() || !s.net.listeners.get(l).is_some_and(|l| l.open) || w().shut_started > 0 {
        return;
    }
    simcore::count("reach.second_run");
    s.net.intruding = true;
    let result: std::rc::Rc<std::cell::Cell<Option<Result<(), std::io::ErrorKind>>>> = Default::default();
    let out = result.clone();
    let d = d.clone();
    {
        let _s = alloc::server();
        simcore::spawn_task(async move {
            let r = {
                let f = run_listener(d);
                f.await
            };
            let _g = alloc::harness();
            out.set(Some(r.map_err(|e| e.kind())));
        });
    }
    quiesce();
    let s = sim().unwrap();
    s.net.intruding = false;
    let r = result.take();
    if r != Some(Err(std::io::ErrorKind::AddrInUse)) {
        violate("bind.second", format!("the listener was run once more while it was running, and returned {r:?}"));
    }
    if s.fs.node(PATH) != Some(&node) {
        violate("bind.touched", format!("binding failed, and what was at the socket path has changed from {node:?} to {:?}", s.fs.node(PATH)));
    }
}

pub fn director(plan: ServerPlan) {
    let _g = alloc::harness();
    {
        let fs = &mut sim().unwrap().fs;
        fs.put(b"/vt6sim", simcore::fs::Node::Dir);
        if !plan.no_dir {
            fs.put(DIR, simcore::fs::Node::Dir);
        }
    }
    world::install(World::new(plan.clone()));
    simcore::set_on_idle(Box::new(|| w().idle()));
    let d = {
        let _s = alloc::server();
        TD::new(path_str(), SimApp(Arc::new(Token))).expect("Dispatch::new")
    };
    w().dispatch = Some(d.clone());
    let runs = plan.runs.max(1) as usize;
    let mut errs: std::collections::VecDeque<i32> = plan.bind_errs.iter().copied().collect();
    let mut baseline: Option<Vec<Usage>> = None;
    for run in 0..runs {
        if run == 0 {
            for _ in 0..plan.pre_shutdown {
                simcore::count("reach.early_shutdown");
                app::shutdown();
            }
        }
        let mut blocker = None;
        if run == 0 && !plan.no_dir {
            match plan.path_taken {
                1 => sim().unwrap().fs.put(PATH, simcore::fs::Node::File),
                2 => {
                    // somebody else's socket (nobody listens any more)
                    let s = sim().unwrap();
                    let l = net::bind(PATH).expect("bind");
                    blocker = Some(l);
                    let _ = s;
                }
                _ => {}
            }
        }
        let s = sim().unwrap();
        if let Some(e) = errs.pop_front() {
            s.net.fail_bind.push_back(e);
        }
        if run == 0 {
            s.net.plan_accept_errs = plan.accept_errs.iter().copied().collect();
        }
        start_listener(&d);
        if let (0, 0, Some(ms)) = (run, plan.path_taken, plan.unlink_at) {
            simcore::spawn_actor("unlinker", move || {
                sleep_ms(ms as u64);
                if matches!(sim().unwrap().fs.node(PATH), Some(simcore::fs::Node::Socket(_))) {
                    simcore::count("fault.socket_file_deleted");
                    sim().unwrap().fs.nodes.remove(PATH);
                    w().unlinked = true;
                }
            });
        }
        let cycles = plan.cycles.max(1);
        let mut usage = Vec::new();
        for cycle in 0..cycles {
            let base = w().clients.len();
            if cycle == 0 {
                for _ in 0..plan.residents.len() {
                    w().clients.push(Default::default());
                }
            }
            if cycle > 0 {
                for _ in 0..plan.clients.len() {
                    w().clients.push(Default::default());
                }
                // the secrets work again
                let w = w();
                w.reg.clients.retain(|r| plan.roots.iter().any(|p| p.id == r.reg.id));
                for r in w.reg.clients.iter_mut() {
                    r.used = false;
                }
                for r in &plan.roots {
                    if !w.reg.clients.iter().any(|x| x.reg.id == r.id) {
                        w.reg.clients.push(world::RegClient { reg: r.clone(), used: false });
                    }
                }
                for r in w.reg.screens.iter_mut() {
                    r.in_used = false;
                    r.out_used = false;
                }
            }
            for (ci, p) in plan.clients.iter().enumerate() {
                if ci % runs == run {
                    let idx = if cycle > 0 { base + ci } else { ci };
                    let p = p.clone();
                    simcore::spawn_actor(format!("client{idx}"), move || client(idx, p));
                }
            }
            for (k, p) in plan.residents.iter().enumerate() {
                let (idx, p) = (plan.clients.len() + k, p.clone());
                simcore::spawn_actor(format!("resident{idx}"), move || resident(idx, p, cycle == 0));
            }
            if run == 0 {
                for (ai, p) in plan.apps.iter().enumerate() {
                    let p = p.clone();
                    simcore::spawn_thread(format!("app{ai}"), move || app_thread(p));
                }
            }
            quiesce();
            // stalled readers come back
            let paused: Vec<usize> = (0..w().clients.len()).filter(|&c| w().clients[c].paused).collect();
            if !paused.is_empty() {
                paused.into_iter().for_each(resume);
                quiesce();
            }
            if plan.intrude {
                intrude(&d);
            }
            // reveal who the connections in handshake mode are
            for c in w().open_handshakes() {
                simcore::spawn_actor(format!("reveal{c}"), move || {
                    write_all(c, b"{1|4:want,}");
                });
            }
            quiesce();
            if plan.ending == Some(Ending::CloseThenShutdown) || plan.cycles > 0 {
                let stay = staying(&plan);
                let all: Vec<usize> = w().socks.keys().copied().filter(|c| !stay.contains(c)).collect();
                for c in all {
                    net::client_close(c);
                }
                quiesce();
            }
            if plan.cycles > 0 {
                usage.push(measure(&plan));
            }
        }
        if plan.cycles > 0 {
            baseline = Some(usage);
        }
        if w().run.result.is_none() {
            app::shutdown();
        }
        quiesce();
        if w().run.result.is_none() {
            violate("shut.stuck", "shutdown was requested, but the listener does not return".into());
        }
        // whatever is started from now on finds nobody listening
        quiesce();
        if let Some(l) = blocker {
            net::drop_listener(l);
            sim().unwrap().fs.nodes.remove(PATH);
        }
        if plan.path_taken == 1 {
            sim().unwrap().fs.nodes.remove(PATH);
        }
        if run + 1 < runs && plan.no_dir {
            sim().unwrap().fs.put(DIR, simcore::fs::Node::Dir);
        }
    }
    if let Some(u) = baseline {
        check_usage(&u, plan.residents.len() as i64);
    }
    // nothing may keep the application alive now
    w().dispatch = None;
    {
        let _s = alloc::server();
        drop(d);
    }
    quiesce();
    let left = sim().unwrap().tasks_alive();
    if !left.is_empty() {
        violate("leak.task", format!("tasks still alive in the end: {}", left.join(", ")));
    }
    if !w().app_dropped {
        violate("app.leak", "the application object is still alive although the listener has returned and all handles are gone".into());
    }
    let s = sim().unwrap();
    let accepted = s.net.conns.iter().filter(|c| c.accepted).count() as u64;
    // counters that are easily too small
    let most_in = s.net.conns.iter().map(|c| c.c2s.read).max().unwrap_or(0);
    let most_out = s.net.conns.iter().map(|c| c.s2c.written).max().unwrap_or(0);
    for (name, n, limit) in [
        ("reach.connections_over_64", accepted, 64),
        ("reach.connections_over_256", accepted, 256),
        ("reach.broadcasts_over_64", w().bcs.len() as u64, 64),
        ("reach.broadcasts_over_256", w().bcs.len() as u64, 256),
        ("reach.messages_over_256", w().requests_handled, 256),
        ("reach.messages_over_1024", w().requests_handled, 1024),
        ("reach.messages_over_65536", w().requests_handled, 65536),
        ("reach.conn_bytes_in_over_4096", most_in, 4096),
        ("reach.conn_bytes_in_over_65536", most_in, 65536),
        ("reach.conn_bytes_out_over_4096", most_out, 4096),
        ("reach.conn_bytes_out_over_65536", most_out, 65536),
    ] {
        if n > limit {
            s.add(name, 1);
        }
    }
    s.add("conns", accepted);
    s.add("idle_checks", w().idle_checks);
    s.add("requests", w().requests_handled);
    let bytes: u64 = s.net.conns.iter().map(|c| c.c2s.read + c.s2c.written).sum();
    s.add("bytes", bytes);
}

#[derive(Clone, Copy, Debug)]
pub struct Usage {
    bytes: i64,
    blocks: i64,
    tasks: usize,
    sockets: i64,
}

/// the connections of those who stay
fn staying(plan: &ServerPlan) -> Vec<usize> {
    let n = plan.clients.len();
    w().clients.iter().skip(n).take(plan.residents.len()).filter_map(|c| c.sock).collect()
}

fn measure(plan: &ServerPlan) -> Usage {
    simtokio::task::purge();
    let (bytes, blocks) = alloc::live();
    let s = sim().unwrap();
    let there = staying(plan).iter().filter(|&&c| s.net.conns[c].srv_rd || s.net.conns[c].srv_wr).count() as i64;
    Usage { bytes, blocks, tasks: s.tasks_alive().len(), sockets: s.net.srv_open - there }
}

fn check_usage(u: &[Usage], stay: i64) {
    if w().run.result.is_none() || u.len() < 8 {
        return;
    }
    let h = u.len() / 2;
    let max = |f: &dyn Fn(&Usage) -> i64, r: &[Usage]| r.iter().map(f).max().unwrap();
    let min = |f: &dyn Fn(&Usage) -> i64, r: &[Usage]| r.iter().map(f).min().unwrap();
    let first = &u[..h];
    let last = &u[u.len() - h / 2..];
    let list = |f: &dyn Fn(&Usage) -> i64| u.iter().map(|x| f(x).to_string()).collect::<Vec<_>>().join(" ");
    let tasks = |x: &Usage| x.tasks as i64;
    if min(&tasks, last) > max(&tasks, &u[..1]).max(1) {
        violate("leak.task", format!("tasks left over after each round of connections: {}", list(&tasks)));
    }
    let socks = |x: &Usage| x.sockets;
    if min(&socks, last) > 0 {
        violate("leak.socket", format!("sockets left over after each round of connections: {}", list(&socks)));
    }
    // A leak keeps reaching new maxima; the capacity of a container grows once or twice.
    // For a connection that stays, the number of buffers is that of the worst backlog so far.
    let records = |f: &dyn Fn(&Usage) -> i64| (2..u.len()).filter(|&i| u[..i].iter().all(|x| f(x) < f(&u[i]))).count();
    let blocks = |x: &Usage| x.blocks;
    if min(&blocks, last) > max(&blocks, first) + 2 + 3 * stay && records(&blocks) >= 3 {
        violate("leak.memory", format!("live allocations of the idle server after each round of connections: {}", list(&blocks)));
    }
    let bytes = |x: &Usage| x.bytes;
    if min(&bytes, last) > max(&bytes, first) + 3500 * stay && records(&bytes) >= 4 {
        violate("leak.memory", format!("live bytes of the idle server after each round of connections: {}", list(&bytes)));
    }
}
