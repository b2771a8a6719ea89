//! Runs vector operations on chosen threads, one at a time or together, and
//! puts marks between them on standard output and in the log of the trace feature.
//!
//! Usage: vtrace <log file>.  Input, one command per line:
//!   op <j> <op> <type> <n> <hex of operand>...   declare operation j
//!   run <k> <thread> <j>                         step k: run j on that thread (which is started if need be)
//!   end <k> <thread>                             step k: let that thread end
//!   conc <k> <thread>,... <j>,...                step k: all those threads run all those operations, together
//!   mark <k>                                     step k: nothing
//! After step k the line "@ k <hash of what the operations returned>" goes to
//! standard output and to the log.
#![allow(unused_macros, unused_variables, dead_code)]
mod lanes;
use lanes::*;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Barrier};

#[derive(Clone)]
struct Call { fun: Fun, args: Vec<Vec<u8>>, n: usize }

fn mix(h: u64, b: u8) -> u64 { (h ^ b as u64).wrapping_mul(0x0100_0000_01b3) }
fn perform(c: &Call) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    match catch_unwind(AssertUnwindSafe(|| (c.fun)(&c.args, c.n))) {
        Ok(Out(v, k)) => {
            for x in &v { for b in x { h = mix(h, *b); } h = mix(h, 255); }
            for b in k.to_le_bytes().iter() { h = mix(h, *b); }
        }
        Err(_) => h = mix(h, 1),
    }
    h
}

enum Job { Run(Call), Together(Arc<Barrier>, Vec<Call>, usize) }
struct Worker { jobs: Sender<Job>, done: Receiver<u64>, handle: std::thread::JoinHandle<()> }
fn worker() -> Worker {
    let (jobs, rx) = channel::<Job>();
    let (tx, done) = channel::<u64>();
    let handle = std::thread::spawn(move || {
        for j in rx {
            let h = match j {
                Job::Run(c) => perform(&c),
                Job::Together(b, calls, first) => {
                    let mut h = vec![0u64; calls.len()];
                    b.wait();
                    for i in 0..calls.len() {
                        let j = (first + i) % calls.len();
                        h[j] = perform(&calls[j]);
                    }
                    h.iter().fold(7, |a, x| x.to_le_bytes().iter().fold(a, |a, b| mix(a, *b)))
                }
            };
            tx.send(h).unwrap();
        }
    });
    Worker { jobs, done, handle }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let log = std::env::args().nth(1).expect("log file");
    if log == "list" {
        for e in &table() { println!("{} {}", e.0, e.1); }
        return;
    }
    let mut index = HashMap::new();
    for e in &table() { index.insert((e.0, e.1), e.2); }
    let mut ops: HashMap<String, Call> = HashMap::new();
    let mut threads: HashMap<String, Worker> = HashMap::new();
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split(' ').collect();
        let h = match w[0] {
            "op" => {
                let c = Call { fun: *index.get(&(w[2], w[3])).expect("operation"), n: w[4].parse().unwrap(), args: w[5..].iter().map(|s| unhex(s)).collect() };
                ops.insert(w[1].to_string(), c);
                continue;
            }
            "run" => {
                let t = threads.entry(w[2].to_string()).or_insert_with(worker);
                t.jobs.send(Job::Run(ops[w[3]].clone())).unwrap();
                t.done.recv().unwrap()
            }
            "end" => {
                let t = threads.remove(w[2]).expect("thread");
                drop(t.jobs);
                t.handle.join().unwrap();
                0
            }
            "conc" => {
                let names: Vec<&str> = w[2].split(',').collect();
                let calls: Vec<Call> = w[3].split(',').map(|j| ops[j].clone()).collect();
                let barrier = Arc::new(Barrier::new(names.len()));
                for (i, t) in names.iter().enumerate() {
                    threads.entry(t.to_string()).or_insert_with(worker).jobs
                        .send(Job::Together(barrier.clone(), calls.clone(), i * calls.len() / names.len())).unwrap();
                }
                names.iter().fold(7, |a, t| threads[*t].done.recv().unwrap().to_le_bytes().iter().fold(a, |a, b| mix(a, *b)))
            }
            "mark" => 0,
            _ => panic!("command"),
        };
        println!("@ {} {}", w[1], h);
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&log).unwrap();
        f.write_all(format!("@ {} {}\n", w[1], h).as_bytes()).unwrap();
    }
}
