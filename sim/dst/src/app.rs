//! The application under which the server runs in the simulations: registry, handlers, connectors. All of it reports to the
//! oracles in `world`.

use crate::plan::*;
use crate::world::{self, w, AppCall};
use simcore::{alloc, site::APP, yield_point};
use std::sync::Arc;
use vt6::common::core::msg::{self, EncodeMessage, Message};
use vt6::common::core::{ClientID, ModuleIdentifier};
use vt6::server::{
    self, ClientCredentials, ClientIdentity, ClientSelector, Connection, ConnectionState, Dispatch, Handler, HandlerError,
    Notification, ScreenIdentity,
};

pub struct Token;
impl Drop for Token {
    fn drop(&mut self) {
        if let Some(w) = world::try_w() {
            w.app_dropped = true;
        }
    }
}

#[derive(Clone)]
pub struct SimApp(#[allow(dead_code)] pub Arc<Token>);

impl std::fmt::Debug for SimApp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("SimApp")
    }
}

pub type TD = vt6::server::tokio::Dispatch<SimApp>;

pub struct MsgConn(pub ClientIdentity);
impl std::fmt::Debug for MsgConn {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("MsgConn")
    }
}
impl Drop for MsgConn {
    fn drop(&mut self) {
        if let Some(w) = world::try_w() {
            w.live_connectors -= 1;
        }
    }
}
impl server::MessageConnector for MsgConn {
    fn new(id: ClientIdentity) -> Self {
        if let Some(w) = world::try_w() {
            w.live_connectors += 1;
        }
        MsgConn(id)
    }
    fn identity(&self) -> &ClientIdentity {
        &self.0
    }
}

pub struct OutConn {
    sock: Option<usize>,
    screen: ScreenIdentity,
}
impl std::fmt::Debug for OutConn {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("OutConn")
    }
}
impl Drop for OutConn {
    fn drop(&mut self) {
        if let Some(w) = world::try_w() {
            w.live_connectors -= 1;
        }
    }
}
impl server::StdoutConnector for OutConn {
    fn new(id: ScreenIdentity) -> Self {
        let mut sock = None;
        if let Some(w) = world::try_w() {
            w.live_connectors += 1;
            sock = w.current_sock();
        }
        OutConn { sock, screen: id }
    }
    fn receive(&mut self, buf: &[u8]) {
        let _g = alloc::harness();
        yield_point(APP);
        w().on_receive(self.sock, self.screen.screen_id(), buf);
        trigger(Trig::Receive);
    }
}

fn trigger(t: Trig) {
    let todo: Vec<usize> = w().take_triggers(t);
    for a in todo {
        if let Some(d) = w().dispatch.clone() {
            simcore::count("reach.callback_cast");
            cast(&d, a);
        }
    }
}

impl server::Application for SimApp {
    type MessageConnector = MsgConn;
    type StdoutConnector = OutConn;
    type MessageHandler = Probe<server::core::MessageHandler<Tail>>;
    type HandshakeHandler = HsProbe<server::core::HandshakeHandler<Tail>>;

    fn notify(&self, n: &Notification) {
        let _g = alloc::harness();
        yield_point(APP);
        if n.is_error() != matches!(n, Notification::ConnectionIOError(_)) {
            simcore::violate("note.kind", format!("is_error() is {} for the notification {:?}", n.is_error(), n.to_string()));
        }
        match n {
            Notification::ConnectionOpened => {
                w().on_opened();
                trigger(Trig::Opened);
            }
            Notification::ConnectionClosed => {
                w().on_closed();
                trigger(Trig::Closed);
            }
            Notification::ConnectionIOError(e) => {
                let errno = e.downcast_ref::<std::io::Error>().and_then(|e| e.raw_os_error());
                w().on_ioerror(errno);
                trigger(Trig::IoError);
            }
            Notification::IncomingBytesDiscarded(b) => {
                w().on_discarded(b);
                trigger(Trig::Discarded);
            }
        }
        yield_point(APP);
    }

    fn register_client(&self, i: ClientIdentity) -> ClientCredentials {
        let _g = alloc::harness();
        yield_point(APP);
        trigger(Trig::Register);
        let creds = ClientCredentials::generate();
        w().on_register(&i, creds.secret());
        yield_point(APP);
        creds
    }
    fn unregister_clients(&self, s: ClientSelector) {
        let _g = alloc::harness();
        yield_point(APP);
        trigger(Trig::Unregister);
        w().on_unregister(|id| match ClientID::parse(id) {
            Some(c) => selector_contains(&s, c),
            None => false,
        });
        yield_point(APP);
    }
    fn has_clients(&self, s: ClientSelector) -> bool {
        let _g = alloc::harness();
        yield_point(APP);
        trigger(Trig::HasClients);
        let r = w().reg.clients.iter().any(|c| selector_contains(&s, ClientID::parse(&c.reg.id).unwrap()));
        yield_point(APP);
        r
    }
    fn authorize_client(&self, secret: &str) -> Option<ClientIdentity> {
        let _g = alloc::harness();
        yield_point(APP);
        trigger(Trig::Authorize);
        let w = w();
        let r = w.reg.clients.iter_mut().find(|c| c.reg.secret == secret && !c.used).map(|c| {
            c.used = true;
            c.reg.clone()
        });
        w.on_authorize(AppCall::Client(secret.to_string(), r.clone()));
        yield_point(APP);
        drop(_g);
        r.map(|r| identity(&r))
    }
    fn find_client(&self, id: ClientID<'_>) -> Option<ClientIdentity> {
        w().reg.clients.iter().find(|c| c.reg.id == id.as_str()).map(|c| identity(&c.reg))
    }
    fn authorize_stdin(&self, secret: &str) -> Option<ScreenIdentity> {
        let _g = alloc::harness();
        yield_point(APP);
        trigger(Trig::Authorize);
        let w = w();
        let r = w.reg.screens.iter_mut().find(|s| s.reg.stdin_secret == secret && !s.in_used).map(|s| {
            s.in_used = true;
            s.reg.id.clone()
        });
        w.on_authorize(AppCall::Stdin(secret.to_string(), r.clone()));
        yield_point(APP);
        drop(_g);
        r.map(|r| ScreenIdentity::new(&r))
    }
    fn authorize_stdout(&self, secret: &str) -> Option<ScreenIdentity> {
        let _g = alloc::harness();
        yield_point(APP);
        trigger(Trig::Authorize);
        let w = w();
        let r = w.reg.screens.iter_mut().find(|s| s.reg.stdout_secret == secret && !s.out_used).map(|s| {
            s.out_used = true;
            s.reg.id.clone()
        });
        w.on_authorize(AppCall::Stdout(secret.to_string(), r.clone()));
        yield_point(APP);
        drop(_g);
        r.map(|r| ScreenIdentity::new(&r))
    }
}

fn selector_contains(s: &ClientSelector<'_>, c: ClientID<'_>) -> bool {
    // the library's own notion of the set, as any application would use it (lifetimes force the copy)
    fn shorten<'a>(s: &'a ClientSelector<'_>) -> ClientSelector<'a> {
        s.clone()
    }
    shorten(s).contains(c)
}

fn identity(r: &ClientReg) -> ClientIdentity {
    let mut i = ClientIdentity::new(&ClientID::parse(&r.id).unwrap());
    if let Some(ref s) = r.stdin {
        i = i.with_stdin(s);
    }
    if let Some(ref s) = r.stdout {
        i = i.with_stdout(s);
    }
    if let Some(ref s) = r.stderr {
        i = i.with_stderr(s);
    }
    i
}

////////////////////////////////////////////////////////////////////////////////
// handlers

pub fn cid_key<C>(id: &C) -> u64 {
    let n = std::mem::size_of::<C>();
    // SAFETY: reads the bytes of a value that lives at least as long
    let b = unsafe { std::slice::from_raw_parts(id as *const C as *const u8, n) };
    if n == 8 {
        u64::from_ne_bytes(b.try_into().unwrap())
    } else {
        b.iter().fold(0xcbf29ce484222325, |h, &x| (h ^ x as u64).wrapping_mul(0x100000001b3))
    }
}

fn items_of(m: &Message) -> Vec<Vec<u8>> {
    let mut v = vec![m.parsed_type().as_str().as_bytes().to_vec()];
    v.extend(m.arguments().map(|a| a.to_vec()));
    v
}

/// First handler of the chain on message connections: reports what the server hands to handlers.
#[derive(Default)]
pub struct Probe<H>(H);
/// The same for the handshake.
#[derive(Default)]
pub struct HsProbe<H>(H);

fn probe<D: Dispatch<SimApp>, H: Handler<SimApp>>(
    h: &H,
    hs: bool,
    msg: &Message,
    conn: &mut Connection<SimApp, D>,
) -> Result<(), HandlerError> {
    {
        let _g = alloc::harness();
        yield_point(APP);
        let key = cid_key(&conn.id());
        let items = items_of(msg);
        if w().lib {
            let items: Vec<&[u8]> = items.iter().map(|i| &i[..]).collect();
            crate::session::understood(msg, &items);
        }
        w().handle_entry(hs, key, items, conn.state().type_name());
    }
    let r = h.handle(msg, conn);
    {
        let _g = alloc::harness();
        let res = match r {
            Ok(()) => 0,
            Err(HandlerError::InvalidMessage) => 1,
            Err(HandlerError::UnknownMessageType) => 2,
        };
        w().handle_exit(res, conn.state().type_name());
        yield_point(APP);
    }
    r
}

fn probe_error<D: Dispatch<SimApp>, H: Handler<SimApp>>(h: &H, hs: bool, err: &msg::ParseError, conn: &mut Connection<SimApp, D>) {
    {
        let _g = alloc::harness();
        yield_point(APP);
        w().on_parse_error(cid_key(&conn.id()), hs);
    }
    h.handle_error(err, conn);
    let _g = alloc::harness();
    w().on_parse_error_done();
    yield_point(APP);
}

impl<H: Handler<SimApp>> Handler<SimApp> for Probe<H> {
    fn handle<D: Dispatch<SimApp>>(&self, msg: &Message, conn: &mut Connection<SimApp, D>) -> Result<(), HandlerError> {
        probe(&self.0, false, msg, conn)
    }
    fn handle_error<D: Dispatch<SimApp>>(&self, err: &msg::ParseError, conn: &mut Connection<SimApp, D>) {
        probe_error(&self.0, false, err, conn)
    }
}
impl<H: server::MessageHandler<SimApp>> server::MessageHandler<SimApp> for Probe<H> {
    fn get_supported_module_version(&self, module: &ModuleIdentifier<'_>) -> Option<u16> {
        self.0.get_supported_module_version(module)
    }
}
impl<H: Handler<SimApp>> Handler<SimApp> for HsProbe<H> {
    fn handle<D: Dispatch<SimApp>>(&self, msg: &Message, conn: &mut Connection<SimApp, D>) -> Result<(), HandlerError> {
        probe(&self.0, true, msg, conn)
    }
    fn handle_error<D: Dispatch<SimApp>>(&self, err: &msg::ParseError, conn: &mut Connection<SimApp, D>) {
        probe_error(&self.0, true, err, conn)
    }
}
impl<H: server::HandshakeHandler<SimApp>> server::HandshakeHandler<SimApp> for HsProbe<H> {}

/// Last handler of the chain: an application module "sim1" that makes the server do things on request.
#[derive(Default)]
pub struct Tail;
impl server::HandshakeHandler<SimApp> for Tail {}
impl server::core::MessageHandlerExt<SimApp> for Tail {}
impl server::MessageHandler<SimApp> for Tail {
    fn get_supported_module_version(&self, module: &ModuleIdentifier<'_>) -> Option<u16> {
        match module.as_str() {
            "sim1" => Some(w().plan.sim_version),
            _ => None,
        }
    }
}

/// A message made of arbitrary items, encoded by the library's formatter.
pub struct Items(pub Vec<Vec<u8>>);
impl EncodeMessage for Items {
    fn encode(&self, buf: &mut [u8]) -> Result<usize, msg::BufferTooSmallError> {
        let mut f = msg::MessageFormatter::new(buf, std::str::from_utf8(&self.0[0]).unwrap(), self.0.len() - 1);
        for a in &self.0[1..] {
            f.add_argument(&a[..]);
        }
        f.finalize()
    }
}

fn num(b: Option<&Vec<u8>>) -> usize {
    b.and_then(|b| std::str::from_utf8(b).ok()).and_then(|s| s.parse().ok()).unwrap_or(0)
}

impl Handler<SimApp> for Tail {
    fn handle<D: Dispatch<SimApp>>(&self, msg: &Message, conn: &mut Connection<SimApp, D>) -> Result<(), HandlerError> {
        let _g = alloc::harness();
        let items = items_of(msg);
        let msgio = matches!(conn.state(), ConnectionState::Msgio(_));
        let ty = String::from_utf8_lossy(&items[0]).into_owned();
        if !msgio || !ty.starts_with("sim1.") {
            return Err(HandlerError::UnknownMessageType);
        }
        yield_point(APP);
        match ty.as_str() {
            "sim1.echo" => {
                // reply with the same arguments
                let mut r = items.clone();
                r[0] = b"sim1.re".to_vec();
                send(conn, r);
                Ok(())
            }
            "sim1.burst" => {
                let n = num(items.get(1)).min(2000);
                let size = num(items.get(2));
                for _ in 0..n {
                    let r = w().note_items(size);
                    send(conn, r);
                }
                Ok(())
            }
            "sim1.cast" => {
                let n = num(items.get(1));
                if n < w().plan.acts.len() {
                    cast(&conn.dispatch(), n);
                }
                Ok(())
            }
            "sim1.bad" => Err(HandlerError::InvalidMessage),
            "sim1.bye" => {
                let _s = alloc::server();
                conn.set_state(ConnectionState::Teardown);
                Ok(())
            }
            "sim1.byebad" => {
                conn.set_state(ConnectionState::Teardown);
                Err(HandlerError::InvalidMessage)
            }
            "sim1.byewhat" => {
                conn.set_state(ConnectionState::Teardown);
                Err(HandlerError::UnknownMessageType)
            }
            "sim1.down" => {
                shutdown();
                Ok(())
            }
            _ => Err(HandlerError::UnknownMessageType),
        }
    }
    fn handle_error<D: Dispatch<SimApp>>(&self, _err: &msg::ParseError, conn: &mut Connection<SimApp, D>) {
        let _g = alloc::harness();
        w().on_tail_error(cid_key(&conn.id()));
    }
}

fn send<D: Dispatch<SimApp>>(conn: &mut Connection<SimApp, D>, items: Vec<Vec<u8>>) {
    w().expect_out(cid_key(&conn.id()), &crate::proto::encode(&items));
    let _s = alloc::server();
    conn.enqueue_message(&Items(items));
}

pub fn shutdown() {
    if let Some(d) = w().dispatch.clone() {
        w().on_shutdown_call();
        {
            let _s = alloc::server();
            d.shutdown();
        }
        w().on_shutdown_done();
    }
}

////////////////////////////////////////////////////////////////////////////////
// broadcasts

/// Something that gets dropped with this, whatever its type and lifetime.
struct Held(*mut (), fn(*mut ()));
// SAFETY: everything runs on one OS thread
unsafe impl Send for Held {}
unsafe impl Sync for Held {}
impl Held {
    fn new<D>(d: D) -> Held {
        // SAFETY: the pointer comes from Box::into_raw below
        Held(Box::into_raw(Box::new(d)).cast(), |p| drop(unsafe { Box::from_raw(p.cast::<D>()) }))
    }
    fn keep(&self) {}
}
impl Drop for Held {
    fn drop(&mut self) {
        (self.1)(self.0)
    }
}

pub fn cast<D: Dispatch<SimApp>>(d: &D, act: usize) {
    let id = w().bc_start(act);
    // as closures of applications do, it holds on to what they need: nothing of that may be kept once it has run
    let held = Held::new(d.clone());
    let action: Box<dyn Fn(&mut Connection<SimApp, D>) + Send + Sync> = Box::new(move |conn| {
        held.keep();
        run_bc(id, conn)
    });
    {
        let _s = alloc::server();
        d.enqueue_broadcast(action);
    }
    w().bc_end(id);
}

fn run_bc<D: Dispatch<SimApp>>(id: usize, conn: &mut Connection<SimApp, D>) {
    let _g = alloc::harness();
    yield_point(APP);
    let key = cid_key(&conn.id());
    let first = w().bc_run(id, key, conn.state().type_name());
    w().check_predicates(
        key,
        conn.state().type_name(),
        conn.state().can_receive_messages(),
        conn.state().can_receive_stdin(),
        |s| conn.state().can_receive_stdin_for_screen(&ScreenIdentity::new(s)),
    );
    let client = conn.message_connector().map(|c| c.0.client_id().as_str().to_string());
    let screen = conn.stdout_connector().map(|c| c.screen.screen_id().to_string());
    w().check_connectors(key, conn.state().type_name(), client, screen);
    let act = w().plan.acts[w().bcs[id].act].clone();
    let mine = match act.sel {
        Sel::All => true,
        Sel::Handshake => matches!(conn.state(), ConnectionState::Handshake),
        Sel::Msgio => matches!(conn.state(), ConnectionState::Msgio(_)),
        Sel::Stdin => matches!(conn.state(), ConnectionState::Stdin(_)),
        Sel::Stdout => matches!(conn.state(), ConnectionState::Stdout(_)),
        Sel::Client(ref p) => {
            matches!(conn.state(), ConnectionState::Msgio(c) if c.0.client_id().as_str().starts_with(p.as_str()))
        }
        Sel::Screen(ref s) => conn.state().can_receive_stdin_for_screen(&ScreenIdentity::new(s)),
        Sel::Nth(m, k) => key % m.max(1) == k,
    };
    if mine {
        match act.what {
            What::Nothing => {}
            What::Msg(ref sizes) => {
                for &s in sizes {
                    let ok = match conn.state() {
                        ConnectionState::Msgio(_) => true,
                        ConnectionState::Handshake => act.sel == Sel::Handshake,
                        _ => false,
                    };
                    if ok {
                        let r = w().note_items(s as usize);
                        send(conn, r);
                        yield_point(APP);
                    }
                }
            }
            What::Stdin(ref sizes) => {
                for &s in sizes {
                    if conn.state().can_receive_stdin() {
                        let data = w().stdin_bytes(s as usize);
                        w().expect_out(key, &data);
                        {
                            let _s = alloc::server();
                            conn.enqueue_stdin(&data);
                        }
                        yield_point(APP);
                    }
                }
            }
            What::Kill => {
                if !matches!(conn.state(), ConnectionState::Teardown) {
                    w().on_kill(key);
                } else {
                    simcore::count("reach.kill_again");
                }
                // to end a connection that has ended already makes no difference
                let _s = alloc::server();
                conn.set_state(ConnectionState::Teardown);
            }
            What::Shutdown => shutdown(),
        }
    }
    if first {
        if let Some(n) = act.nest {
            simcore::count("reach.nested_cast");
            cast(&conn.dispatch(), n);
        }
    }
}
