//! Clients that are built from the library, too: they name lifetimes with it, encode what they send and decode what they receive.

use crate::plan::*;
use crate::proto::{self, Parsed};
use crate::server;
use crate::world::w;
use simcore::net::show;
use simcore::{fd, sim, violate};
use std::os::unix::ffi::OsStrExt;
use vt6::client::core::ClientIDSuffix;
use vt6::common::core::msg::{EncodeMessage, Message, MessageFormatter};
use vt6::common::core::msg::{BufferTooSmallError, DecodeMessage};
use vt6::common::core::*;
use vt6::msg::core::*;
use vt6::msg::posix::*;
use vt6::msg::{Have, Nope, Want};

////////////////////////////////////////////////////////////////////////////////
// names of lifetimes

fn suffix(s: Suf) -> ClientIDSuffix {
    match s {
        Suf::Own => ClientIDSuffix::Own,
        Suf::Local(i) => ClientIDSuffix::Local(i),
        Suf::Job(i) => ClientIDSuffix::Job(i),
        Suf::Child(i, j) => ClientIDSuffix::Child(i, j),
    }
}

/// The lifetime `p` comprises `q`.
fn comprises(p: &LName, q: &LName) -> bool {
    if p.root != q.root {
        return false;
    }
    let own = |n: &LName| n.path.iter().copied().filter(|s| *s != Suf::Own).collect::<Vec<_>>();
    let (p, q) = (own(p), own(q));
    p.iter().enumerate().all(|(k, s)| match (s, q.get(k)) {
        (_, None) => false,
        (Suf::Job(i), Some(Suf::Child(j, _))) => k + 1 == p.len() && i == j,
        (s, Some(t)) => s == t,
    })
}

/// The client ID of this lifetime as the library encodes it (None: too long to be of any use).
pub fn name(n: &LName) -> Option<String> {
    let mut id = n.root.clone();
    for s in &n.path {
        let base = ClientID::parse(&id)?;
        let rel = suffix(*s).below(base);
        let size = rel.get_size();
        if size > 3000 {
            simcore::count("reach.long_name");
            return None;
        }
        let mut buf = vec![b'!'; size];
        EncodeArgument::encode(&rel, &mut buf);
        match String::from_utf8(buf) {
            Ok(x) if ClientID::parse(&x).is_some() && proto::is_client_id(x.as_bytes()) => id = x,
            r => {
                violate("lib.names", format!("{s:?} below {id} is encoded as {r:?}, which is no client ID"));
                return None;
            }
        }
    }
    let w = w();
    let mut bad = None;
    for (m, x) in w.names.iter() {
        if m == n {
            if *x != id {
                bad = Some(format!("{n:?} is encoded as {x} and as {id}"));
            }
            return if bad.is_none() { Some(id) } else { report(bad) };
        }
        for (a, x, b, y) in [(m, x, n, &id), (n, &id, m, x)] {
            if proto::at_or_below(y, x) != comprises(a, b) {
                let not = if comprises(a, b) { "not " } else { "" };
                bad = Some(format!("{b:?} ({y}) is {not}at or below {a:?} ({x})"));
            }
        }
    }
    if bad.is_some() {
        return report(bad);
    }
    simcore::count("reach.names");
    w.names.push((n.clone(), id.clone()));
    Some(id)
}
fn report(bad: Option<String>) -> Option<String> {
    violate("lib.names", bad.unwrap_or_default());
    None
}

////////////////////////////////////////////////////////////////////////////////
// sending

struct Args<'a>(&'a str, &'a [LArg], &'a [Option<String>]);
impl EncodeMessage for Args<'_> {
    fn encode(&self, buf: &mut [u8]) -> Result<usize, BufferTooSmallError> {
        let mut f = MessageFormatter::new(buf, self.0, self.1.len());
        for (a, n) in self.1.iter().zip(self.2) {
            match a {
                LArg::Bool(b) => f.add_argument(b),
                LArg::Int(t, v) => {
                    macro_rules! int {
                        ($($k:literal $t:ty),*) => {
                            match t % 12 {
                                $($k => f.add_argument(&v.parse::<$t>().unwrap_or(0)),)*
                                _ => unreachable!(),
                            }
                        };
                    }
                    int!(0 u8, 1 i8, 2 u16, 3 i16, 4 u32, 5 i32, 6 u64, 7 i64, 8 u128, 9 i128, 10 usize, 11 isize)
                }
                LArg::Str(s) => f.add_argument(s.as_str()),
                LArg::Bytes(b) => f.add_argument(&b.0[..]),
                LArg::Opt(s) => f.add_argument(&s.as_deref()),
                LArg::Path(b) => f.add_argument(std::path::Path::new(std::ffi::OsStr::from_bytes(&b.0))),
                LArg::Module(s) => match ModuleIdentifier::parse(s) {
                    Some(m) => f.add_argument(&m),
                    None => f.add_argument(s.as_str()),
                },
                LArg::Version(s, v) => match ModuleIdentifier::parse(s) {
                    Some(m) => f.add_argument(&m.with_minor_version(*v)),
                    None => f.add_argument(format!("{s}.{v}").as_str()),
                },
                LArg::Type(s) => match MessageType::parse(s) {
                    Some(m) => f.add_argument(&m),
                    None => f.add_argument(s.as_str()),
                },
                LArg::Ident(s) => match Identifier::parse(s) {
                    Some(m) => f.add_argument(&m),
                    None => f.add_argument(s.as_str()),
                },
                LArg::Name(l) => match (n, l.path.split_last()) {
                    (Some(_), Some((last, up))) => {
                        let up = name(&LName { root: l.root.clone(), path: up.to_vec() }).unwrap_or_default();
                        match ClientID::parse(&up) {
                            Some(base) => f.add_argument(&suffix(*last).below(base)),
                            None => f.add_argument(""),
                        }
                    }
                    _ => f.add_argument(l.root.as_str()),
                },
                LArg::Huge(s) => f.add_argument(&suffix(*s).below(ClientID::parse("h").unwrap())),
            }
        }
        f.finalize()
    }
}

fn int_text(t: u8, v: &str) -> String {
    macro_rules! int {
        ($($k:literal $t:ty),*) => {
            match t % 12 {
                $($k => v.parse::<$t>().unwrap_or(0).to_string(),)*
                _ => unreachable!(),
            }
        };
    }
    int!(0 u8, 1 i8, 2 u16, 3 i16, 4 u32, 5 i32, 6 u64, 7 i64, 8 u128, 9 i128, 10 usize, 11 isize)
}

/// What is to be sent for an argument, and how many bytes it would be in addition.
fn arg_text(a: &LArg, n: &Option<String>) -> (Vec<u8>, u64) {
    let v = match a {
        LArg::Bool(b) => (if *b { "t" } else { "f" }).into(),
        LArg::Int(t, v) => int_text(*t, v).into_bytes(),
        LArg::Str(s) | LArg::Module(s) | LArg::Type(s) | LArg::Ident(s) => s.clone().into_bytes(),
        LArg::Bytes(b) | LArg::Path(b) => b.0.clone(),
        LArg::Opt(s) => s.clone().unwrap_or_default().into_bytes(),
        LArg::Version(s, v) => format!("{s}.{v}").into_bytes(),
        LArg::Name(l) => n.clone().unwrap_or_else(|| l.root.clone()).into_bytes(),
        LArg::Huge(s) => {
            let id = suffix(*s).below(ClientID::parse("h").unwrap());
            let n = id.get_size();
            if n > 3000 {
                return (Vec::new(), n as u64);
            }
            id.encode_to_vector()
        }
    };
    (v, 0)
}

/// Encodes with the library, into buffers of various sizes. None if the message is too long.
fn encode<M: EncodeMessage>(m: &M, items: &[Vec<u8>], huge: u64, tight: u32) -> Option<Vec<u8>> {
    let exp = proto::encode(items);
    // each huge argument is counted as empty there
    let len = exp.len() as u64 + huge;
    let mut sizes = vec![4072, len.min(1024) as usize];
    if tight > 0 {
        sizes.push((len.min(1100) as usize).saturating_sub(tight as usize));
        sizes.push((len.min(1100) + tight as u64) as usize);
    }
    let mut ok = None;
    for size in sizes {
        let mut buf = vec![0xA5u8; size];
        let room = size.min(1024) as u64;
        let r = m.encode(&mut buf);
        let what = || format!("encoding {} ({len} bytes) into {size} bytes", crate::world::World::show_items(items));
        match r {
            Ok(n) if n as u64 == len && len <= room && buf[..n] == exp[..] => {
                buf.truncate(n);
                ok = Some(buf);
            }
            Err(BufferTooSmallError(n)) if len > room && n as u64 == len - room => {
                simcore::count("reach.lib_too_small");
            }
            Ok(n) => {
                violate("lib.encode", format!("{} results in {}", what(), show(&buf[..n.min(size)])));
                return None;
            }
            Err(e) => {
                violate("lib.encode", format!("{} fails with {e:?}", what()));
                return None;
            }
        }
    }
    simcore::count(if ok.is_some() { "reach.lib_sent" } else { "reach.lib_too_long" });
    ok
}

fn b(s: impl AsRef<[u8]>) -> Vec<u8> {
    s.as_ref().to_vec()
}

/// The bytes of a message as a client built from the library sends it. None: there is nothing to be sent.
pub fn message(m: &LMsg, tight: u32) -> Option<Vec<u8>> {
    let o = |s: &Option<String>| s.clone().unwrap_or_default().into_bytes();
    match m {
        LMsg::Hello(kind, s) => {
            let secret = String::from_utf8(server::secret(s)).ok()?;
            let secret = &secret[..];
            match kind {
                HelloKind::Stdin => encode(&StdinHello { secret }, &[b("posix1.stdin-hello"), b(secret)], 0, tight),
                HelloKind::Stdout => encode(&StdoutHello { secret }, &[b("posix1.stdout-hello"), b(secret)], 0, tight),
                HelloKind::Client => encode(&ClientHello { secret }, &[b("posix1.client-hello"), b(secret)], 0, tight),
            }
        }
        LMsg::Want(module) => {
            let Some(id) = ModuleIdentifier::parse(module) else {
                if proto::is_module(module.as_bytes()) {
                    violate("lib.decode", format!("{module} is not accepted as a module identifier"));
                }
                return None;
            };
            if !proto::is_module(module.as_bytes()) {
                violate("lib.decode", format!("{module} is accepted as a module identifier"));
                return None;
            }
            encode(&Want(id), &[b("want"), b(module)], 0, tight)
        }
        LMsg::Have(module, v) => {
            let id = ModuleIdentifier::parse(module)?;
            match v {
                Some(v) => {
                    let items = [b("have"), b(format!("{module}.{v}"))];
                    encode(&Have::ThisModule(id.with_minor_version(*v)), &items, 0, tight)
                }
                None => encode(&Have::NotThisModule(id), &[b("have"), b(module)], 0, tight),
            }
        }
        LMsg::Nope(t) => encode(&Nope(MessageType::parse(t)?), &[b("nope"), b(t)], 0, tight),
        LMsg::Make(n, i, o1, e) => {
            let id = name(n)?;
            let items = [b("core1.client-make"), b(&id), o(i), o(o1), o(e)];
            if tight % 2 == 1 {
                // without the detour over a string
                let a = [LArg::Name(n.clone()), LArg::Opt(i.clone()), LArg::Opt(o1.clone()), LArg::Opt(e.clone())];
                return encode(&Args("core1.client-make", &a, &[Some(id), None, None, None]), &items, 0, tight);
            }
            let m = ClientMake {
                client_id: ClientID::parse(&id)?,
                stdin_screen_id: i.as_deref(),
                stdout_screen_id: o1.as_deref(),
                stderr_screen_id: e.as_deref(),
            };
            encode(&m, &items, 0, tight)
        }
        LMsg::End(n) => {
            let id = name(n)?;
            let items = [b("core1.client-end"), b(&id)];
            if tight % 2 == 1 {
                return encode(&Args("core1.client-end", &[LArg::Name(n.clone())], &[Some(id)]), &items, 0, tight);
            }
            encode(&ClientEnd { client_id: ClientID::parse(&id)? }, &items, 0, tight)
        }
        LMsg::Any(ty, args) => {
            let names: Vec<Option<String>> = args.iter().map(|a| if let LArg::Name(n) = a { name(n) } else { None }).collect();
            if args.iter().zip(&names).any(|(a, n)| matches!(a, LArg::Name(_)) && n.is_none()) {
                return None;
            }
            let mut items = vec![b(ty)];
            let mut huge = 0;
            for (a, n) in args.iter().zip(&names) {
                let (v, h) = arg_text(a, n);
                items.push(v);
                if h > 0 {
                    huge += h + h.to_string().len() as u64 - 1;
                }
            }
            encode(&Args(ty, args, &names), &items, huge, tight)
        }
    }
}

////////////////////////////////////////////////////////////////////////////////
// receiving

/// Decodes the messages that have been received completely.
pub fn receive(c: usize, buf: &mut Vec<u8>) {
    loop {
        let exp = proto::parse(buf);
        let got = Message::parse(buf);
        let len = match (exp, &got) {
            (Parsed::Msg(items, len), Ok((m, n))) if *n == len => {
                let items: Vec<&[u8]> = items.iter().map(|r| &buf[r.0..r.1]).collect();
                let mut mine: Vec<&[u8]> = m.arguments().collect();
                let t = m.parsed_type();
                mine.insert(0, t.as_str().as_bytes());
                if mine != items || m.arguments().len() + 1 != items.len() {
                    violate("lib.decode", format!("conn {c}: {} is understood as {m}", show(&buf[..len])));
                    return;
                }
                if !understood(m, &items) {
                    return;
                }
                simcore::count("reach.lib_decoded");
                len
            }
            (Parsed::Incomplete, Err(e)) if e.is_incomplete() => return,
            // broken: nothing that the client side could be blamed for
            (Parsed::Error, Err(e)) if !e.is_incomplete() => return,
            (_, r) => {
                violate("lib.decode", format!("conn {c}: {} is parsed as {r:?}", show(buf)));
                return;
            }
        };
        buf.drain(..len);
    }
}

/// Somebody has received this message.
pub fn understood(m: &Message<'_>, items: &[&[u8]]) -> bool {
    let (text, exp) = (m.to_string(), display(items));
    if text != exp {
        violate("lib.decode", format!("{} is displayed as {text}, not as {exp}", show(&proto::encode(items))));
        return false;
    }
    if let Some(bad) = typed(m, items) {
        violate("lib.decode", format!("{bad}: {}", show(&proto::encode(items))));
        return false;
    }
    true
}

/// The representation of messages for humans.
fn display(items: &[&[u8]]) -> String {
    let mut s = String::from("(");
    for (i, x) in items.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        if i == 0 || !x.is_empty() && x.iter().all(|c| c.is_ascii_alphanumeric() || b"._-".contains(c)) {
            s.push_str(&String::from_utf8_lossy(x));
            continue;
        }
        s.push('"');
        for c in x.iter() {
            match c {
                b'\t' => s.push_str("\\t"),
                b'\n' => s.push_str("\\n"),
                b'\r' => s.push_str("\\r"),
                b'"' | b'\'' | b'\\' => s.extend(['\\', *c as char]),
                0x20..=0x7e => s.push(*c as char),
                _ => s.push_str(&format!("\\x{c:02x}")),
            }
        }
        s.push('"');
    }
    s.push(')');
    s
}

fn text(b: &[u8]) -> Option<&str> {
    std::str::from_utf8(b).ok()
}

fn version(b: &[u8]) -> Option<(&[u8], u16)> {
    let i = b.iter().position(|&c| c == b'.')?;
    let v = text(&b[i + 1..])?;
    let n: u16 = v.parse().ok()?;
    if proto::is_module(&b[..i]) && n.to_string() == v {
        Some((&b[..i], n))
    } else {
        None
    }
}

/// Compares what the library's types make of a message with what it says.
fn typed(m: &Message<'_>, items: &[&[u8]]) -> Option<String> {
    let opt = |b: &[u8]| if b.is_empty() { Some(None) } else { text(b).map(|s| Some(s.to_string())) };
    macro_rules! same {
        ($what:expr, $got:expr, $exp:expr) => {
            let (got, exp) = ($got, $exp);
            if got != exp {
                return Some(format!("{} is {got:?} instead of {exp:?}", $what));
            }
        };
    }
    let n = items.len();
    let s = |x: &str| x.to_string();
    // of all message types, only the right one fits
    let have = Have::decode_message(m).map(|h| match h {
        Have::ThisModule(v) => (v.module().as_str().to_string(), Some(v.minor_version())),
        Have::NotThisModule(id) => (id.as_str().to_string(), None),
    });
    let exp = (items[0] == b"have" && n == 2)
        .then(|| match version(items[1]) {
            Some((id, v)) => Some((s(text(id)?), Some(v))),
            None if proto::is_module(items[1]) => Some((s(text(items[1])?), None)),
            None => None,
        })
        .flatten();
    same!("Have", have, exp);
    let nope = Nope::decode_message(m).map(|x| x.0.as_str().to_string());
    same!("Nope", nope, (items[0] == b"nope" && n == 2 && proto::valid_type(items[1])).then(|| s(text(items[1]).unwrap())));
    let want = Want::decode_message(m).map(|x| x.0.as_str().to_string());
    same!("Want", want, (items[0] == b"want" && n == 2 && proto::is_module(items[1])).then(|| s(text(items[1]).unwrap())));
    let four = |ty: &[u8]| {
        if items[0] != ty || n != 5 || !proto::is_client_id(items[1]) {
            return None;
        }
        Some((s(text(items[1])?), opt(items[2])?, opt(items[3])?, opt(items[4])?))
    };
    let own = |x: Option<&str>| x.map(|x| x.to_string());
    let hello = ServerHello::decode_message(m).map(|h| (s(h.client_id.as_str()), own(h.stdin_screen_id), own(h.stdout_screen_id), own(h.stderr_screen_id)));
    same!("ServerHello", hello, four(b"posix1.server-hello"));
    let make = ClientMake::decode_message(m).map(|h| (s(h.client_id.as_str()), own(h.stdin_screen_id), own(h.stdout_screen_id), own(h.stderr_screen_id)));
    same!("ClientMake", make, four(b"core1.client-make"));
    let one = |ty: &[u8]| (items[0] == ty && n == 2).then(|| text(items[1]).map(s)).flatten();
    same!("ClientNew", ClientNew::decode_message(m).map(|x| s(x.secret)), one(b"core1.client-new"));
    same!("ClientHello", ClientHello::decode_message(m).map(|x| s(x.secret)), one(b"posix1.client-hello"));
    same!("StdinHello", StdinHello::decode_message(m).map(|x| s(x.secret)), one(b"posix1.stdin-hello"));
    same!("StdoutHello", StdoutHello::decode_message(m).map(|x| s(x.secret)), one(b"posix1.stdout-hello"));
    same!("ClientEnd", ClientEnd::decode_message(m).map(|x| s(x.client_id.as_str())), one(b"core1.client-end").filter(|x| proto::is_client_id(x.as_bytes())));
    // all that arguments can be
    for a in items[1..].iter().copied() {
        macro_rules! ints {
            ($($t:ty),*) => {$(
                let exp = text(a).and_then(|x| x.parse::<$t>().ok().filter(|v| v.to_string() == x));
                same!(concat!("the ", stringify!($t)), <$t>::decode_argument(a), exp);
            )*};
        }
        ints!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize);
        same!("the bool", bool::decode_argument(a), if a == b"t" { Some(true) } else if a == b"f" { Some(false) } else { None });
        same!("the text", <&str>::decode_argument(a), text(a));
        same!("the bytes", <&[u8]>::decode_argument(a), Some(a));
        same!("the optional text", <Option<&str>>::decode_argument(a), if a.is_empty() { Some(None) } else { text(a).map(Some) });
        same!("the path", <&std::path::Path>::decode_argument(a).map(|p| p.as_os_str().as_bytes()), Some(a));
        let t = || text(a).unwrap_or("").to_string();
        same!("the client ID", ClientID::decode_argument(a).map(|x| s(x.as_str())), proto::is_client_id(a).then(t));
        same!("the identifier", Identifier::decode_argument(a).map(|x| s(x.as_str())), proto::is_ident(a).then(t));
        let m = ModuleIdentifier::decode_argument(a);
        same!("the module", m.as_ref().map(|x| s(x.as_str())), proto::is_module(a).then(t));
        if let Some(m) = m {
            same!("the module", format!("{}{}", m.name().as_str(), m.major_version()), t());
        }
        let v = ModuleVersion::decode_argument(a).map(|v| (v.module().as_str().as_bytes().to_vec(), v.minor_version()));
        same!("the version", v, version(a).map(|(m, v)| (m.to_vec(), v)));
        let sc = ScopedIdentifier::decode_argument(a);
        let got = sc.as_ref().map(|x| (x.as_str().as_bytes().to_vec(), x.module().as_str().as_bytes().to_vec(), x.member().as_str().as_bytes().to_vec()));
        same!("the scoped identifier", got, proto::scoped(a).map(|(m, i)| (a.to_vec(), m.to_vec(), i.to_vec())));
        same!("the message type", MessageType::decode_argument(a).map(|x| s(x.as_str())), proto::valid_type(a).then(t));
    }
    None
}

////////////////////////////////////////////////////////////////////////////////
// starting

/// A client is started by its parent: which tells it the socket path through descriptor 60.
pub fn announced(s: &Secret, cuts: &[u32]) -> Vec<u8> {
    use vt6::client::Environment;
    let Ok(secret) = String::from_utf8(server::secret(s)) else { return server::PATH.to_vec() };
    let hello = ParentHello { client_secret: &secret, server_socket_path: std::path::Path::new(server::path_str()) };
    let Some(data) = encode(&hello, &[b("posix1.parent-hello"), b(&secret), b(server::PATH)], 0, cuts.len() as u32) else {
        return server::PATH.to_vec();
    };
    let f = &mut sim().unwrap().fd60;
    *f = fd::Fd60 { active: true, exists: true, ..Default::default() };
    let mut rest = &data[..];
    for &k in cuts {
        let k = k as usize;
        if k == 0 {
            f.script.push_back(fd::FdEvent::Err(libc::EINTR));
        } else if k < rest.len() {
            f.script.push_back(fd::FdEvent::Data(rest[..k].to_vec()));
            rest = &rest[k..];
        }
    }
    f.script.push_back(fd::FdEvent::Data(rest.to_vec()));
    let env = Environment::discover();
    sim().unwrap().fd60.active = false;
    let path = match env {
        Ok(ref e) => e.parse().map(|r| r.server_socket_path().as_os_str().as_bytes().to_vec()).map_err(|e| e.to_string()),
        Err(e) => Err(e.to_string()),
    };
    if path.as_deref() != Ok(server::PATH) {
        violate("lib.announce", format!("announced {}, discovered {:?}", show(&data), path.map(|p| show(&p))));
    }
    simcore::count("reach.announced");
    server::PATH.to_vec()
}
