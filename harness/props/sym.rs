//! Interface to the symbolic engine.  In the `sym` crate these are undefined
//! externs that the engine implements; in the `replay` crate they are defined
//! natively and consume a recorded input bit string in creation order.
#![allow(dead_code)]

extern "C-unwind" {
    fn __sym_bits(n: u64) -> u64;
    fn __sym_group(n: u64) -> u64;
    fn __sym_assume(c: bool);
    fn __sym_check(c: bool, id: u64);
    fn __sym_note(id: u64);
    fn __sym_out(v: u64);
    fn __sym_param(i: u64) -> u64;
    fn __sym_pick(v: u64) -> u64;
}

/// `n` fresh unconstrained input bits (plain boolean variables).
#[inline(always)]
pub fn bits(n: u64) -> u64 {
    unsafe { __sym_bits(n) }
}
/// `n` (≤16) fresh input bits that the engine reasons about jointly through
/// their complete truth table (canonical forms), needed for nonlinear code.
#[inline(always)]
pub fn group(n: u64) -> u64 {
    unsafe { __sym_group(n) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, id: u64) {
    unsafe { __sym_check(c, id) }
}
/// Reachability witness: the orchestrator requires the listed notes to be hit.
#[inline(always)]
pub fn note(id: u64) {
    unsafe { __sym_note(id) }
}
/// Observable value, compared between engine and native replay.
#[inline(always)]
pub fn out(v: u64) {
    unsafe { __sym_out(v) }
}
#[inline(always)]
pub fn param(i: u64) -> usize {
    unsafe { __sym_param(i) as usize }
}
/// The value of `v`, on a path of its own for every feasible value.
#[inline(always)]
pub fn pick(v: u64) -> u64 {
    unsafe { __sym_pick(v) }
}
