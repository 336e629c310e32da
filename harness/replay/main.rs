//! Native execution of a harness on recorded input values.
//!
//! replay <harness> <tier> <file>   values from file, one per line
//! Exit: 0 completed, 10 check failed, 77 assumption not met, 101 panic.

use std::cell::RefCell;
use std::slice::from_raw_parts;

thread_local! {
    static IN: RefCell<(Vec<u64>, usize)> = RefCell::new((Vec::new(), 0));
    static CFG: RefCell<(u64, Vec<u64>)> = RefCell::new((0, Vec::new()));
}

fn next() -> u64 {
    IN.with(|i| {
        let mut i = i.borrow_mut();
        let k = i.1;
        i.1 += 1;
        // a path that ended early recorded fewer values than the native run may ask for
        i.0.get(k).copied().unwrap_or(0)
    })
}

fn text(p: *const u8, n: usize) -> String { String::from_utf8_lossy(unsafe { from_raw_parts(p, n) }).into_owned() }

#[no_mangle] extern "C" fn __vk_bytes(p: *mut u8, n: usize) { for i in 0..n { unsafe { *p.add(i) = next() as u8 } } }
#[no_mangle] extern "C" fn __vk_int(_w: u32, lo: u64, hi: u64) -> u64 { next().clamp(lo, hi) }
#[no_mangle] extern "C" fn __vk_fork(n: u64) -> u64 { next().min(n - 1) }
#[no_mangle] extern "C" fn __vk_conc(x: u64) -> u64 { x }
#[no_mangle] extern "C" fn __vk_same(x: u64) -> u64 { x }
#[no_mangle] unsafe extern "C" fn __vk_copy(d: *mut u8, s: *const u8, n: usize) { std::ptr::copy(s, d, n) }
#[no_mangle] extern "C" fn __vk_assume(b: bool) { if !b { std::process::exit(77) } }
#[no_mangle] extern "C" fn __vk_check(b: bool, p: *const u8, n: usize) {
    if !b {
        println!("FAILED {}", text(p, n));
        std::process::exit(10)
    }
}
#[no_mangle] extern "C" fn __vk_cover(_p: *const u8, _n: usize) {}
#[no_mangle] extern "C" fn __vk_covers(_p: *const u8, _n: usize) {}
#[no_mangle] extern "C" fn __vk_observe(x: u64) { println!("O {}", x) }
#[no_mangle] extern "C" fn __vk_tier() -> u64 { CFG.with(|c| c.borrow().0) }
#[no_mangle] extern "C" fn __vk_param(i: u64, d: u64) -> u64 { CFG.with(|c| c.borrow().1.get(i as usize).copied().unwrap_or(d)) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        for (n, _) in harness::all() { println!("{}", n); }
        return;
    }
    let vals: Vec<u64> = std::fs::read_to_string(&a[3]).unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
    IN.with(|i| *i.borrow_mut() = (vals, 0));
    let params = a[4..].iter().map(|x| x.parse().unwrap()).collect();
    CFG.with(|c| *c.borrow_mut() = (a[2].parse().unwrap(), params));
    let (_, f) = harness::all().into_iter().find(|x| x.0 == a[1]).expect("no such harness");
    f();
    println!("DONE");
}
