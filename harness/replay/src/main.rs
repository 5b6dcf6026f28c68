//! Native replay of a harness entry with a recorded input bit string.
//!   replay ENTRY [params...] --bits FILE
//! Each line of FILE is one bit string; for each, prints one line
//! `OK|CHECK <id>|PANIC <msg>|ASSUME  outs...`.
//! Exit status: 0 all OK, 10 some check failed, 11 some panic, 12 assumption failed, 13 input exhausted.
#[path = "../../props/sym.rs"]
pub mod sym;
include!("../../props/list.rs");

use std::cell::RefCell;

struct Failed(u64);
struct AssumeFailed;
struct Exhausted;

#[derive(Default)]
struct Rt {
    bits: Vec<u8>,
    pos: usize,
    params: Vec<u64>,
    outs: Vec<u64>,
    notes: Vec<u64>,
}
thread_local! { static RT: RefCell<Rt> = RefCell::new(Rt::default()); }

fn take(n: u64) -> u64 {
    let mut ex = false;
    let v = RT.with(|r| {
        let mut r = r.borrow_mut();
        let mut v = 0u64;
        for i in 0..n {
            let b = match r.bits.get(r.pos) {
                Some(b) => *b,
                None => {
                    ex = true;
                    0
                }
            };
            r.pos += 1;
            v |= ((b == b'1') as u64) << i;
        }
        v
    });
    if ex {
        std::panic::resume_unwind(Box::new(Exhausted));
    }
    v
}
#[no_mangle]
pub extern "C-unwind" fn __sym_bits(n: u64) -> u64 {
    take(n)
}
#[no_mangle]
pub extern "C-unwind" fn __sym_group(n: u64) -> u64 {
    take(n)
}
#[no_mangle]
pub extern "C-unwind" fn __sym_assume(c: bool) {
    if !c {
        std::panic::resume_unwind(Box::new(AssumeFailed));
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_check(c: bool, id: u64) {
    if !c {
        std::panic::resume_unwind(Box::new(Failed(id)));
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_note(id: u64) {
    RT.with(|r| r.borrow_mut().notes.push(id));
}
#[no_mangle]
pub extern "C-unwind" fn __sym_out(v: u64) {
    RT.with(|r| r.borrow_mut().outs.push(v));
}
#[no_mangle]
pub extern "C-unwind" fn __sym_pick(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C-unwind" fn __sym_param(i: u64) -> u64 {
    RT.with(|r| r.borrow().params.get(i as usize).copied().unwrap_or(0))
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let mut file = None;
    if let Some(i) = args.iter().position(|a| a == "--bits") {
        file = Some(args.remove(i + 1));
        args.remove(i);
    }
    let entry = args.remove(0);
    let params: Vec<u64> = args.iter().map(|a| a.parse().unwrap_or_else(|_| a.parse::<i64>().unwrap() as u64)).collect();
    let f = ENTRIES.iter().find(|e| e.0 == entry).unwrap_or_else(|| {
        eprintln!("no entry {}", entry);
        std::process::exit(2)
    });
    let text = match &file {
        Some(f) => std::fs::read_to_string(f).unwrap(),
        None => "\n".to_string(),
    };
    let mut code = 0;
    std::panic::set_hook(Box::new(|i| {
        eprintln!("{}", i);
    }));
    for l in text.lines() {
        RT.with(|r| {
            *r.borrow_mut() = Rt { bits: l.trim().bytes().collect(), params: params.clone(), ..Rt::default() };
        });
        let func = f.1;
        let h = std::thread::Builder::new().stack_size(256 << 20).spawn({
            let bits: Vec<u8> = l.trim().bytes().collect();
            let params = params.clone();
            move || {
                RT.with(|r| {
                    *r.borrow_mut() = Rt { bits, params, ..Rt::default() };
                });
                let res = std::panic::catch_unwind(|| func());
                let (o, n, used) = RT.with(|r| {
                    let r = r.borrow();
                    (r.outs.clone(), r.notes.clone(), r.pos)
                });
                (res, o, n, used)
            }
        });
        let (res, outs, notes, used) = h.unwrap().join().unwrap();
        let (tag, c) = match res {
            Ok(()) => ("OK".to_string(), 0),
            Err(e) => {
                if let Some(f) = e.downcast_ref::<Failed>() {
                    (format!("CHECK {}", f.0), 10)
                } else if e.is::<AssumeFailed>() {
                    ("ASSUME".to_string(), 12)
                } else if e.is::<Exhausted>() {
                    ("EXHAUSTED".to_string(), 13)
                } else {
                    ("PANIC".to_string(), 11)
                }
            }
        };
        if c > code {
            code = c;
        }
        if c == 10 || c == 11 {
            code = c;
        }
        println!(
            "{} | outs {} | notes {} | used {}",
            tag,
            outs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            notes.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            used
        );
    }
    std::process::exit(code);
}
