//! Which property a class of violation contradicts.

pub const ALL: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C24",
    "C25",
];

/// True for classes that contradict every property: the program does not survive or does not get anywhere.
pub fn generic(kind: &str) -> bool {
    matches!(kind, "panic" | "deadlock" | "livelock" | "stuck" | "crash" | "hang")
}

pub fn harness_error(kind: &str) -> bool {
    kind == "harness-panic"
}

pub fn props(kind: &str) -> &'static [&'static str] {
    let mut it = kind.split('.');
    let a = it.next().unwrap_or("");
    let b = it.next().unwrap_or("");
    let c = it.next().unwrap_or("");
    match (a, b, c) {
        ("in", "lost" | "lost_at_eof", "hs") => &["C01", "C07", "C12"],
        ("in", "lost" | "lost_at_eof", _) => &["C01", "C02", "C12"],
        ("in", "unread", "stdout") => &["C01", "C05", "C12"],
        ("in", "unread", "hs") => &["C01", "C07", "C12"],
        ("in", "unread", _) => &["C01", "C12"],
        ("in", "stdin", _) => &["C08", "C01"],
        ("in", "mode", _) => &["C01", "C05", "C07", "C08"],
        ("in", "discard", _) => &["C01", "C05"],
        ("in", "error", _) => &["C01"],
        ("in", _, _) => &["C01", "C25"],
        ("stdout", "lost" | "lost_at_eof", _) => &["C05", "C12", "C01"],
        ("stdout", _, _) => &["C05", "C01"],
        ("hs", "state", _) => &["C07", "C08"],
        ("hs", _, _) => &["C07"],
        ("state", _, _) => &["C07", "C08"],
        ("out", "mismatch", "hello") => &["C07", "C03", "C25"],
        ("out", "mismatch", "reply") => &["C02", "C03", "C10", "C11", "C24", "C25"],
        ("out", "mismatch", "make") => &["C10", "C02", "C03", "C24", "C25"],
        ("out", "mismatch", "end") => &["C11", "C02", "C03", "C24", "C25"],
        ("out", "mismatch", "app") => &["C03", "C02", "C25"],
        ("out", "mismatch", "stdin") => &["C04"],
        ("out", "stalled", "hello") => &["C07", "C03", "C12"],
        ("out", "stalled", "reply") => &["C02", "C03", "C12", "C10", "C11"],
        ("out", "stalled", "make") => &["C10", "C02", "C03", "C12", "C24"],
        ("out", "stalled", "end") => &["C11", "C02", "C03", "C12", "C24"],
        ("out", "stalled", "app") => &["C03", "C12"],
        ("out", "stalled", "stdin") => &["C04", "C12"],
        ("out", "extra", "hs") => &["C07", "C02", "C03", "C04"],
        ("out", "extra", "msg") => &["C02", "C03", "C04", "C10", "C11"],
        ("out", "extra", "dead") => &["C08", "C02", "C03", "C07"],
        ("out", "extra", _) => &["C04", "C03", "C02"],
        ("bc", _, _) => &["C06"],
        ("pred", "msg", _) => &["C03"],
        ("pred", "stdin", _) => &["C04"],
        ("dead", "open", "hs") => &["C07", "C08", "C18"],
        ("dead", "open", "overlong") => &["C02", "C08", "C18"],
        ("dead", "open", _) => &["C08", "C18"],
        ("dead", _, _) => &["C08", "C07"],
        ("alive", _, _) => &["C08", "C12", "C01", "C02", "C07", "C11"],
        ("end", "handled" | "open", _) => &["C11", "C08", "C24"],
        ("end", _, _) => &["C11", "C24"],
        ("reg", "missing", _) => &["C10", "C11", "C24"],
        ("reg", _, _) => &["C10", "C24", "C25"],
        ("note", _, _) => &["C09"],
        ("app", _, _) => &["C13", "C18"],
        ("shut", "open" | "handled", _) => &["C13", "C08"],
        ("shut", "listening" | "stuck" | "result" | "spurious", _) => &["C13", "C14"],
        ("shut", _, _) => &["C13"],
        ("accept", "missing", _) => &["C12", "C14"],
        ("accept", "open", _) => &["C14", "C08"],
        ("accept" | "bind", _, _) => &["C14"],
        ("leak", _, _) => &["C18"],
        ("discover", _, _) => &["C15"],
        ("creds", _, _) => &["C16"],
        ("ex", "stdout", _) => &["C17", "C05", "C01"],
        ("ex", "greeting", _) => &["C17", "C04"],
        ("ex", "dialog", _) => &["C17", "C02", "C03", "C10"],
        ("ex", "again", _) => &["C17", "C11", "C10"],
        ("ex", "admit", _) => &["C17", "C07"],
        ("ex", "refused", _) => &["C17", "C07", "C10", "C11"],
        ("ex", "end", _) => &["C17", "C11", "C08"],
        ("ex", "exit" | "file", _) => &["C17", "C13"],
        ("ex", _, _) => &["C17"],
        ("path", _, _) => &["C19"],
        ("lib", "names", _) => &["C24"],
        ("lib", _, _) => &["C25"],
        _ => &[],
    }
}

pub fn relevant(prop: &str, kind: &str) -> bool {
    generic(kind) || props(kind).contains(&prop)
}
