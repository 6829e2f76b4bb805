//! Runs emitted WebAssembly in a node child process (one per worker), talking JSON lines.
#![allow(dead_code)]
use crate::interp::{self, V};
use crate::props::native::K;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Node { _child: Child, tx: ChildStdin, rx: BufReader<ChildStdout>, pid: u32 }
thread_local! { static NODE: RefCell<Option<Node>> = const { RefCell::new(None) }; }

fn spawn() -> Result<Node, String> {
    let script = concat!(env!("CARGO_MANIFEST_DIR"), "/node_runner.js");
    let mut c = Command::new("node").args(["--stack-size=900", "--disable-wasm-trap-handler", script]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("cannot start node: {e}"))?;
    let tx = c.stdin.take().unwrap();
    let rx = BufReader::new(c.stdout.take().unwrap());
    Ok(Node { _child: c, tx, rx, pid: std::process::id() })
}
#[derive(Clone, Debug)]
pub struct Call { pub f: String, pub args: Vec<V>, pub limit: usize, pub fresh: bool, pub writes: Vec<i64> }
#[derive(Clone, Debug)]
pub struct WRan { pub trace: Vec<String>, pub end: String, pub out: Vec<u8> }

/// Outer error: infrastructure. Inner error: the engine rejects the module.
pub fn run(wasm: &[u8], calls: &[Call]) -> Result<Result<Vec<WRan>, String>, String> {
    let mut q = String::with_capacity(wasm.len() * 2 + 256);
    q.push_str("{\"wasm\":\"");
    for b in wasm { q.push_str(&format!("{b:02x}")); }
    q.push_str("\",\"calls\":[");
    for (i, c) in calls.iter().enumerate() {
        if i > 0 { q.push(','); }
        q.push_str(&format!("[\"{}\",[", c.f));
        for (j, a) in c.args.iter().enumerate() {
            if j > 0 { q.push(','); }
            match a {
                V::I(x, 64) => q.push_str(&format!("[\"i64\",\"{x}\"]")),
                V::I(x, w) => q.push_str(&format!("[\"i32\",\"{}\"]", if *w == 1 { *x as i64 } else { interp::sext(*x, *w) })),
                V::F64(b) => q.push_str(&format!("[\"f\",\"{b:x}\"]")),
                V::F32(b) => q.push_str(&format!("[\"f\",\"{:x}\"]", (f32::from_bits(*b) as f64).to_bits())),
                _ => q.push_str("[\"i32\",\"0\"]"),
            }
        }
        let w = if c.writes.is_empty() { "null".to_string() } else { format!("{:?}", c.writes) };
        q.push_str(&format!("],{},{},{w}]", c.limit, c.fresh));
    }
    q.push_str("]}\n");
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        if n.as_ref().map(|x| x.pid) != Some(std::process::id()) { *n = Some(spawn()?); }
        let nd = n.as_mut().unwrap();
        nd.tx.write_all(q.as_bytes()).and_then(|_| nd.tx.flush()).map_err(|e| format!("node: {e}"))?;
        let mut l = String::new();
        nd.rx.read_line(&mut l).map_err(|e| format!("node: {e}"))?;
        let j = json(&mut l.trim().chars().peekable())?;
        let J::O(o) = j else { return Err(format!("node reply: {l}")) };
        for (k, v) in o {
            match (k.as_str(), v) {
                ("err", J::S(s)) => return Ok(Err(s)),
                ("r", J::A(rs)) => {
                    let mut out = vec![];
                    for r in rs {
                        let J::A(r) = r else { return Err("reply".into()) };
                        let mut it = r.into_iter();
                        let (Some(J::A(t)), Some(J::S(e)), Some(J::A(o))) = (it.next(), it.next(), it.next()) else { return Err("reply".into()) };
                        out.push(WRan { trace: t.into_iter().map(|x| if let J::S(s) = x { s } else { String::new() }).collect(), end: e, out: o.into_iter().map(|x| if let J::N(n) = x { n as u8 } else { 0 }).collect() });
                    }
                    return Ok(Ok(out));
                }
                _ => {}
            }
        }
        Err(format!("node reply: {l}"))
    })
}
pub fn outcome(r: &WRan, k: K) -> (Vec<String>, String) {
    let e = &r.end;
    let end = if let Some(v) = e.strip_prefix('r') {
        let num = |s: &str| f64::from_bits(u64::from_str_radix(s, 16).unwrap_or(0));
        let v = match (k, v.chars().next()) {
            (K::Nil, _) => V::Nil,
            (K::I(64), Some('b')) => V::I(v[1..].parse().unwrap_or(0), 64),
            (K::I(w), Some('n')) => { let x = num(&v[1..]) as i64 as u64; V::I(interp::mask(x, if w == 1 { 32 } else { w }), w) }
            (K::F64, Some('n')) => V::F64(num(&v[1..]).to_bits()),
            (K::F32, Some('n')) => V::F32((num(&v[1..]) as f32).to_bits()),
            _ => return (r.trace.clone(), format!("returned {v}")),
        };
        format!("return {}", interp::show(&v))
    } else if e == "cut" || e == "overflow" { "diverge".into() } else if e.starts_with("trap") { "trap".into() } else { e.clone() };
    (r.trace.clone(), end)
}

enum J { S(String), N(f64), A(Vec<J>), O(Vec<(String, J)>), X }
fn json(c: &mut std::iter::Peekable<std::str::Chars>) -> Result<J, String> {
    match c.peek() {
        Some('"') => {
            c.next();
            let mut s = String::new();
            while let Some(x) = c.next() {
                match x {
                    '"' => return Ok(J::S(s)),
                    '\\' => match c.next() { Some('n') => s.push('\n'), Some('u') => { for _ in 0..4 { c.next(); } s.push('?') } Some(y) => s.push(y), None => break },
                    x => s.push(x),
                }
            }
            Err("json string".into())
        }
        Some('[') => {
            c.next();
            let mut v = vec![];
            if c.peek() == Some(&']') { c.next(); return Ok(J::A(v)); }
            loop {
                v.push(json(c)?);
                match c.next() { Some(',') => {} Some(']') => return Ok(J::A(v)), _ => return Err("json array".into()) }
            }
        }
        Some('{') => {
            c.next();
            let mut v = vec![];
            if c.peek() == Some(&'}') { c.next(); return Ok(J::O(v)); }
            loop {
                let J::S(k) = json(c)? else { return Err("json key".into()) };
                if c.next() != Some(':') { return Err("json colon".into()); }
                v.push((k, json(c)?));
                match c.next() { Some(',') => {} Some('}') => return Ok(J::O(v)), _ => return Err("json object".into()) }
            }
        }
        _ => {
            let mut s = String::new();
            while let Some(x) = c.peek() { if ",]}".contains(*x) { break; } s.push(*x); c.next(); }
            s.parse().map(J::N).or(Ok(J::X))
        }
    }
}
