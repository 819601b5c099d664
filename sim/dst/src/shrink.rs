//! Minimisation of a failing run: fewer clients, operations and faults, smaller numbers, a straighter schedule.

use crate::plan::Plan;
use crate::runner::{exec_child, Tapes};
use serde_json::Value;
use std::path::Path;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
enum Key {
    I(usize),
    K(String),
}

struct Shrinker<'a> {
    scratch: &'a Path,
    plan: Plan,
    /// none: the generated ones (when the process died and could not hand them over)
    tapes: Option<Tapes>,
    kind: String,
    msg: String,
    end: Instant,
    tries: u32,
}

fn trim(mut t: Tapes) -> Tapes {
    for x in t.iter_mut() {
        while x.last() == Some(&0) {
            x.pop();
        }
    }
    t
}

impl Shrinker<'_> {
    fn out_of_time(&self) -> bool {
        Instant::now() > self.end || self.tries > 1500
    }

    fn attempt(&mut self, plan: Plan, tapes: Option<Tapes>) -> bool {
        if self.out_of_time() {
            return false;
        }
        self.tries += 1;
        let r = exec_child(self.scratch, &plan, tapes.clone(), false, 8.0);
        if r.kind.as_deref() != Some(&self.kind) {
            return false;
        }
        self.plan = plan;
        self.msg = r.msg;
        self.tapes = if r.tapes.is_empty() { tapes } else { Some(trim(r.tapes)) };
        true
    }

    /// Tries another plan: on the same tapes, then on fresh ones.
    fn attempt_plan(&mut self, v: &Value) -> bool {
        let Ok(plan) = serde_json::from_value::<Plan>(v.clone()) else { return false };
        if self.tapes.is_some() && self.attempt(plan.clone(), self.tapes.clone()) {
            return true;
        }
        for k in 0..2u64 {
            let mut p = plan.clone();
            p.seed = p.seed.wrapping_add(k);
            if self.attempt(p, None) {
                return true;
            }
        }
        false
    }

    /// None: an earlier step has removed that part of the plan.
    fn get<'v>(v: &'v mut Value, path: &[Key]) -> Option<&'v mut Value> {
        let mut v = v;
        for k in path {
            v = match k {
                Key::I(i) => v.get_mut(*i)?,
                Key::K(s) => v.get_mut(s.as_str())?,
            };
        }
        Some(v)
    }

    fn value(&self) -> Value {
        serde_json::to_value(&self.plan).unwrap()
    }

    fn arrays(v: &Value, path: &mut Vec<Key>, out: &mut Vec<Vec<Key>>) {
        match v {
            Value::Array(a) => {
                // pairs are not lists
                if !(a.len() <= 3 && a.iter().all(|x| x.is_number())) || path.iter().any(|k| matches!(k, Key::K(s) if s == "cuts" || s == "gens")) {
                    out.push(path.clone());
                }
                for (i, x) in a.iter().enumerate() {
                    path.push(Key::I(i));
                    Self::arrays(x, path, out);
                    path.pop();
                }
            }
            Value::Object(o) => {
                for (k, x) in o {
                    path.push(Key::K(k.clone()));
                    Self::arrays(x, path, out);
                    path.pop();
                }
            }
            _ => {}
        }
    }

    fn drop_elements(&mut self) -> bool {
        let mut any = false;
        let mut paths = Vec::new();
        Self::arrays(&self.value(), &mut Vec::new(), &mut paths);
        for p in paths {
            let mut chunk = {
                let mut v = self.value();
                match Self::get(&mut v, &p) {
                    Some(Value::Array(a)) => a.len(),
                    _ => 0,
                }
            };
            while chunk > 0 {
                let mut i = 0;
                loop {
                    if self.out_of_time() {
                        return any;
                    }
                    let mut v = self.value();
                    let Some(Value::Array(a)) = Self::get(&mut v, &p) else { break };
                    if i >= a.len() {
                        break;
                    }
                    let e = (i + chunk).min(a.len());
                    a.drain(i..e);
                    if self.attempt_plan(&v) {
                        any = true;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        any
    }

    fn simple_knobs(&mut self) -> bool {
        let mut any = false;
        let simple: &[(&str, u64)] = &[
            ("strategy", 2),
            ("workers", 0),
            ("early_timer", 0),
            ("read_frag", 0),
            ("write_frag", 0),
            ("client_frag", 0),
            ("spurious", 0),
            ("spurious_wake", 0),
            ("cap_c2s", 65536),
            ("cap_s2c", 65536),
        ];
        for (k, x) in simple {
            let mut v = self.value();
            if v["knobs"][*k] == *x {
                continue;
            }
            v["knobs"][*k] = (*x).into();
            any |= self.attempt_plan(&v);
        }
        any
    }

    fn leaves(v: &Value, path: &mut Vec<Key>, out: &mut Vec<Vec<Key>>) {
        match v {
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    path.push(Key::I(i));
                    Self::leaves(x, path, out);
                    path.pop();
                }
            }
            Value::Object(o) => {
                for (k, x) in o {
                    path.push(Key::K(k.clone()));
                    Self::leaves(x, path, out);
                    path.pop();
                }
            }
            _ => out.push(path.clone()),
        }
    }

    fn smaller(&mut self) -> bool {
        let mut any = false;
        let mut paths = Vec::new();
        Self::leaves(&self.value()["scen"], &mut vec![Key::K("scen".into())], &mut paths);
        for p in paths {
            let name = p.iter().rev().find_map(|k| match k {
                Key::K(s) => Some(s.clone()),
                _ => None,
            });
            let name = name.unwrap_or_default();
            let numeric = ["start", "Sleep", "Fill", "rd_max", "rd_sleep", "Msg", "Stdin", "interrupt", "Flood", "runs", "cycles", "trigs", "times"];
            let optional = ["read_err", "write_err", "nest", "ending", "fail_mkdir", "fail_stat"];
            loop {
                if self.out_of_time() {
                    return any;
                }
                let mut v = self.value();
                let Some(x) = Self::get(&mut v, &p) else { break };
                let new = match x {
                    Value::Bool(true) => Value::Bool(false),
                    Value::Number(n) if numeric.contains(&name.as_str()) => {
                        let n = n.as_u64().unwrap_or(0);
                        let low = if matches!(name.as_str(), "Fill" | "Flood" | "runs" | "times") { 1 } else { 0 };
                        if n <= low {
                            break;
                        }
                        (n / 2).max(low).into()
                    }
                    Value::String(s) if name == "Fill" || (name == "Raw" || name == "Msg") && s.chars().count() > 12 => {
                        let n = s.chars().count();
                        s.chars().take(n / 2).collect::<String>().into()
                    }
                    _ if optional.contains(&name.as_str()) && !x.is_null() => Value::Null,
                    _ => break,
                };
                let was_number = new.is_number() || new.is_string();
                *x = new;
                if self.attempt_plan(&v) {
                    any = true;
                    if !was_number {
                        break;
                    }
                } else {
                    break;
                }
            }
        }
        any
    }

    fn straighten(&mut self) {
        let Some(t) = self.tapes.clone() else { return };
        for s in 0..t.len() {
            let mut n = self.tapes.as_ref().unwrap()[s].len().div_ceil(2).max(1);
            loop {
                let mut i = 0;
                while i < self.tapes.as_ref().unwrap()[s].len() {
                    if self.out_of_time() {
                        return;
                    }
                    let mut t = self.tapes.clone().unwrap();
                    let e = (i + n).min(t[s].len());
                    if t[s][i..e].iter().any(|&x| x != 0) {
                        t[s][i..e].iter_mut().for_each(|x| *x = 0);
                        let p = self.plan.clone();
                        self.attempt(p, Some(trim(t)));
                    }
                    i += n;
                }
                if n == 1 || self.tapes.as_ref().unwrap()[s].len() / n > 64 {
                    break;
                }
                n = (n / 2).max(1);
            }
        }
    }
}

/// Returns the smallest failing plan and tapes found, and the message.
pub fn shrink(scratch: &Path, plan: Plan, tapes: Tapes, kind: &str) -> (Plan, Option<Tapes>, String) {
    let secs = std::env::var("VT6DST_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(40);
    let mut s = Shrinker {
        scratch,
        plan,
        tapes: if tapes.is_empty() { None } else { Some(trim(tapes)) },
        kind: kind.into(),
        msg: String::new(),
        end: Instant::now() + Duration::from_secs(secs),
        tries: 0,
    };
    loop {
        let mut any = s.drop_elements();
        any |= s.simple_knobs();
        any |= s.smaller();
        if !any || s.out_of_time() {
            break;
        }
    }
    s.end = Instant::now() + Duration::from_secs(secs / 3);
    s.tries = 0;
    s.straighten();
    println!("minimised in {} further attempts", s.tries);
    (s.plan, s.tapes, s.msg)
}
