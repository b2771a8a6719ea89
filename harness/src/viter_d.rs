//! One quarter of the element types: see viter_body.rs.
#![allow(unused_macros, unused_variables, dead_code, unreachable_code)]
mod common;
mod zoned;
macro_rules! by_type { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    "i64" => $f::<i64>($($a),*),
    "f64" => $f::<f64>($($a),*),
    _ => panic!("type") } } }
macro_rules! by_mix { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    _ => panic!("type") } } }
macro_rules! by_szip { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    _ => panic!("type") } } }
macro_rules! by_zip { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    "i64.u64" => $f::<i64, u64>($($a),*),
    "u32.u8" => $f::<u32, u8>($($a),*),
    "u32.f64" => $f::<u32, f64>($($a),*),
    "f64.u32" => $f::<f64, u32>($($a),*),
    _ => panic!("type") } } }
macro_rules! by_bigzip { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    "f32.u32" => $f::<f32, u32>($($a),*),
    _ => panic!("type") } } }
include!("viter_body.rs");
