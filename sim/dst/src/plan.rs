//! What a simulated run consists of. A plan plus the decision tapes determine a run completely.

use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// Byte string; in JSON every byte is the character with that code.
#[derive(Clone, PartialEq, Eq, Default)]
pub struct B(pub Vec<u8>);
impl Serialize for B {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let t: String = self.0.iter().map(|&b| b as char).collect();
        s.serialize_str(&t)
    }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = String::deserialize(d)?;
        Ok(B(t.chars().map(|c| c as u32 as u8).collect()))
    }
}
impl std::fmt::Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&simcore::net::show(&self.0))
    }
}
impl AsRef<[u8]> for B {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl From<&str> for B {
    fn from(s: &str) -> B {
        B(s.as_bytes().to_vec())
    }
}
impl From<String> for B {
    fn from(s: String) -> B {
        B(s.into_bytes())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KnobsP {
    /// 0 random, 1 pct, 2 run-to-block, 3 slow
    pub strategy: u32,
    pub p: u32,
    pub w: u32,
    pub workers: usize,
    pub early_timer: u32,
    pub read_frag: u32,
    pub write_frag: u32,
    pub client_frag: u32,
    pub spurious: u32,
    pub spurious_wake: u32,
    pub cap_c2s: usize,
    pub cap_s2c: usize,
    pub max_steps: u64,
}

impl KnobsP {
    pub fn to_knobs(&self) -> simcore::Knobs {
        use simcore::Strategy::*;
        simcore::Knobs {
            strategy: match self.strategy {
                1 => Pct { n: self.p.max(1) },
                2 => RunToBlock,
                3 => Slow { p: self.p, w: self.w.max(1) },
                _ => Random { p: self.p },
            },
            workers: self.workers,
            early_timer: self.early_timer,
            read_frag: self.read_frag,
            write_frag: self.write_frag,
            client_frag: self.client_frag,
            spurious: self.spurious,
            spurious_wake: self.spurious_wake,
            cap_c2s: self.cap_c2s.max(1),
            cap_s2c: self.cap_s2c.max(1),
            max_steps: self.max_steps,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ClientReg {
    pub id: String,
    pub stdin: Option<String>,
    pub stdout: Option<String>,
    pub stderr: Option<String>,
    pub secret: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ScreenReg {
    pub id: String,
    pub stdin_secret: String,
    pub stdout_secret: String,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum HelloKind {
    Stdin,
    Stdout,
    Client,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Secret {
    /// of the n-th preregistered client
    Root(usize),
    /// stdin secret of the n-th screen
    In(usize),
    /// stdout secret of the n-th screen
    Out(usize),
    /// latest secret the server issued for this client ID (learned out of band, e.g. from the parent)
    Made(String),
    /// the same, for a lifetime named with the library
    Named(LName),
    Lit(B),
}

/// ClientIDSuffix of the library
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Suf {
    Own,
    Local(u32),
    Job(u32),
    Child(u32, u32),
}

/// The name of a lifetime: that of the outermost client, and how it goes on from client to client.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct LName {
    pub root: String,
    pub path: Vec<Suf>,
}

/// Argument of a message
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum LArg {
    Bool(bool),
    /// which type, decimal
    Int(u8, String),
    Str(String),
    Bytes(B),
    Opt(Option<String>),
    Path(B),
    Module(String),
    Version(String, u16),
    Type(String),
    Ident(String),
    Name(LName),
    /// below the client ID "h", not to be sent
    Huge(Suf),
}

/// What a client built from the library sends.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum LMsg {
    Hello(HelloKind, Secret),
    Want(String),
    Have(String, Option<u16>),
    Nope(String),
    Make(LName, Option<String>, Option<String>, Option<String>),
    End(LName),
    /// any message
    Any(String, Vec<LArg>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum COp {
    /// one well-formed message
    Msg(Vec<B>),
    Raw(B),
    Hello(HelloKind, Secret),
    /// a message that the client encodes with the library (also trying buffers that much too small or large)
    Lib(LMsg, u32),
    /// the same message n times
    Flood(Vec<B>, u32),
    /// n bytes of patterned data (all byte values)
    Fill(u32),
    Sleep(u32),
    /// wait (at most 20 ms) until the server has nothing left to do for us
    Sync,
    PauseRead,
    ResumeRead,
    ShutdownWrite,
    Close,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct ClientP {
    pub start: u32,
    pub ops: Vec<COp>,
    /// read at most this many bytes at a time
    pub rd_max: u32,
    /// rest after each read (ms)
    pub rd_sleep: u32,
    /// never reads anything
    pub no_read: bool,
    pub read_err: Option<(u64, i32)>,
    pub write_err: Option<(u64, i32)>,
    /// decodes what it receives with the library
    #[serde(default)]
    pub lib: bool,
    /// learns the path of the socket from descriptor 60 (split like this, 0: interrupted)
    #[serde(default)]
    pub announced: Option<(Secret, Vec<u32>)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sel {
    All,
    Handshake,
    Msgio,
    Stdin,
    Stdout,
    Client(String),
    Screen(String),
    /// connections whose ID modulo .0 is .1
    Nth(u64, u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum What {
    Nothing,
    /// enqueue messages of these total sizes
    Msg(Vec<u32>),
    /// enqueue stdin of these sizes
    Stdin(Vec<u32>),
    Kill,
    Shutdown,
}

/// A broadcast.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Act {
    pub sel: Sel,
    pub what: What,
    /// enqueue this one (with a higher index) when run for the first time
    pub nest: Option<usize>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum AOp {
    Cast(usize),
    Sleep(u32),
    Yield,
    Shutdown,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct AppP {
    pub start: u32,
    pub ops: Vec<AOp>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Trig {
    Opened,
    Closed,
    IoError,
    Discarded,
    Authorize,
    Register,
    Unregister,
    Receive,
    HasClients,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Ending {
    /// shut down once everything is quiet
    Shutdown,
    /// all clients leave first
    CloseThenShutdown,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct ServerPlan {
    pub roots: Vec<ClientReg>,
    pub screens: Vec<ScreenReg>,
    pub clients: Vec<ClientP>,
    pub apps: Vec<AppP>,
    pub acts: Vec<Act>,
    /// (callback, act, how often)
    pub trigs: Vec<(Trig, usize, u32)>,
    pub accept_errs: Vec<(usize, i32)>,
    /// somebody deletes the socket file at this time (ms)
    #[serde(default)]
    pub unlink_at: Option<u32>,
    pub bind_errs: Vec<i32>,
    /// something exists at the socket path: 0 nothing, 1 a file, 2 somebody's live socket
    pub path_taken: u32,
    /// no directory to put the socket into
    pub no_dir: bool,
    /// shutdown() this many times before the listener is started
    pub pre_shutdown: u32,
    /// run the listener a second time while it is running
    #[serde(default)]
    pub intrude: bool,
    /// run the listener this many times on the same dispatch
    pub runs: u32,
    pub ending: Option<Ending>,
    /// minor version of the handler's own module
    pub sim_version: u16,
    /// repeat the whole client population this many times (residue scenario)
    pub cycles: u32,
    /// clients who stay all the while, and do the same each time
    #[serde(default)]
    pub residents: Vec<Resident>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Resident {
    pub hello: HelloKind,
    pub secret: Secret,
    pub ops: Vec<COp>,
    /// a broadcast each time
    pub cast: Option<usize>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DiscoverPlan {
    pub exists: bool,
    pub data: B,
    /// sizes of successive reads (0 = as much as there is); afterwards everything
    pub cuts: Vec<u32>,
    /// (before the n-th delivery, errno)
    pub errs: Vec<(u32, i32)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CredsPlan {
    /// what to generate: true = client, false = screen
    pub gens: Vec<bool>,
    pub short: u32,
    pub eintr: u32,
    pub fail: Option<(u64, i32)>,
    /// how many calls fail (0: all from there on)
    #[serde(default)]
    pub fail_n: u64,
    /// which of the generations and which bit of its draw to flip
    pub flips: Vec<(u32, u32)>,
    /// which generation, which byte of its draw, XORed with what
    #[serde(default)]
    pub subs: Vec<(u32, u32, u8)>,
    /// which generation, which two bytes of the draw for one secret to swap
    #[serde(default)]
    pub swaps: Vec<(u32, u32, u32)>,
    pub fixed: Option<B>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PathPlan {
    /// value of XDG_RUNTIME_DIR
    pub var: Option<B>,
    pub dirs: Vec<B>,
    pub files: Vec<B>,
    /// symbolic links and where they point
    #[serde(default)]
    pub links: Vec<(B, B)>,
    pub fail_mkdir: Option<i32>,
    pub fail_stat: Option<(u32, i32)>,
    pub race_mkdir: bool,
    pub race_file: bool,
    /// how many processes do it
    pub times: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum XOp {
    /// one of the announced hellos: 0 stdin, 1 stdout, 2 client
    Hello(u32),
    /// client-make for this ID
    Make(String),
    /// client-end for this ID
    End(String),
    /// client hello with the newest (or the first) secret issued for this ID
    HelloMade(String, bool),
    /// a hello of the kind `1` with a secret that is nearly (as `2` says) the announced one `0` (3: the one issued last)
    Near(u32, u32, u32),
    Raw(B),
    Sleep(u32),
    Close,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct XClient {
    pub start: u32,
    pub ops: Vec<XOp>,
    pub rd_max: u32,
    pub no_read: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ExamplePlan {
    pub clients: Vec<XClient>,
    /// when the interrupts arrive (ms)
    pub interrupt: Vec<u32>,
    pub dir_missing: bool,
    pub vt6_exists: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Scen {
    Server(ServerPlan),
    Discover(DiscoverPlan),
    Creds(CredsPlan),
    Path(PathPlan),
    Example(ExamplePlan),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub hash_seed: u64,
    pub knobs: KnobsP,
    pub scen: Scen,
}
