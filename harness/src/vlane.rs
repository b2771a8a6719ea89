//! Runs single vector operations on given bytes.
//!
//! Input, one call per line:  <i> <op> <type> <n> <hex of operand>...
//! (type: element type, 'x', number of lanes).  The output is one JSON object
//! per call; operands and results are given as bytes in memory order.
//! `vlane list` prints the operations which exist for each type.
#![allow(unused_macros, unused_variables, dead_code)]
mod lanes;
mod zoned;
use zoned::{beat, watchdog};
use lanes::*;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn list(out: &mut String, b: &[u8]) {
    use std::fmt::Write;
    out.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 { out.push(','); }
        write!(out, "{}", x).unwrap();
    }
    out.push(']');
}
fn lists(out: &mut String, v: &[Vec<u8>]) {
    out.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 { out.push(','); }
        list(out, x);
    }
    out.push(']');
}
#[global_allocator]
static MEMORY: zoned::Zoned = zoned::Zoned;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let tab = table();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    if std::env::args().nth(1).map_or(false, |a| a == "list") {
        for e in &tab { writeln!(out, "{} {}", e.0, e.1).unwrap(); }
        return;
    }
    let mut index = std::collections::HashMap::new();
    for e in &tab { index.insert((e.0, e.1), e.2); }
    let stdin = std::io::stdin();
    let mut text = String::new();
    watchdog();
    for line in stdin.lock().lines() {
        beat();
        let line = line.unwrap();
        let w: Vec<&str> = line.split(' ').collect();
        let (op, ty) = (w[1], w[2]);
        let n = w[3].parse::<i64>().unwrap() as usize;
        let args: Vec<Vec<u8>> = w[4..].iter().map(|s| unhex(s)).collect();
        let f = *index.get(&(op, ty)).expect("operation");
        let r = catch_unwind(AssertUnwindSafe(|| f(&args, n)));
        let (o, to) = match op.find('.') { Some(k) => (&op[..k], &op[k + 1..]), None => (op, ty) };
        let cut = |t: &'_ str| -> String { t[..t.find('x').unwrap()].to_string() };
        text.clear();
        text.push_str(&format!("{{\"i\":{},\"op\":\"{}\",\"t\":\"{}\",\"u\":\"{}\",\"w\":{},\"n\":{},\"a\":", w[0], o, cut(ty), cut(to), size(ty), w[3]));
        lists(&mut text, &args);
        match r {
            Ok(Out(v, k)) => {
                text.push_str(",\"k\":\"ok\",\"o\":");
                lists(&mut text, &v);
                text.push_str(&format!(",\"r\":{}}}", k));
            }
            Err(_) => text.push_str(",\"k\":\"panic\",\"o\":[],\"r\":0}"),
        }
        writeln!(out, "{}", text).unwrap();
    }
}
