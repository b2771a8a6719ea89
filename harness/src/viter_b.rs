//! One quarter of the element types: see viter_body.rs.
#![allow(unused_macros, unused_variables, dead_code, unreachable_code)]
mod common;
mod zoned;
macro_rules! by_type { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    "u16" => $f::<u16>($($a),*),
    "i16" => $f::<i16>($($a),*),
    "u64" => $f::<u64>($($a),*),
    _ => panic!("type") } } }
macro_rules! by_mix { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    "i16" => $f::<i16>($($a),*),
    "u64" => $f::<u64>($($a),*),
    _ => panic!("type") } } }
macro_rules! by_szip { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    "u16" => $f::<u16>($($a),*),
    "i16" => $f::<i16>($($a),*),
    _ => panic!("type") } } }
macro_rules! by_zip { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    "i16.u16" => $f::<i16, u16>($($a),*),
    "u64.f64" => $f::<u64, f64>($($a),*),
    _ => panic!("type") } } }
macro_rules! by_bigzip { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    "u64.f64" => $f::<u64, f64>($($a),*),
    _ => panic!("type") } } }
include!("viter_body.rs");
