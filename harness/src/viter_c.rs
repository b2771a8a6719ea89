//! One quarter of the element types: see viter_body.rs.
#![allow(unused_macros, unused_variables, dead_code, unreachable_code)]
mod common;
mod zoned;
macro_rules! by_type { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    "u32" => $f::<u32>($($a),*),
    "i32" => $f::<i32>($($a),*),
    "f32" => $f::<f32>($($a),*),
    _ => panic!("type") } } }
macro_rules! by_mix { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    "f32" => $f::<f32>($($a),*),
    _ => panic!("type") } } }
macro_rules! by_szip { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    "u32" => $f::<u32>($($a),*),
    "i32" => $f::<i32>($($a),*),
    _ => panic!("type") } } }
macro_rules! by_zip { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    "f32.u32" => $f::<f32, u32>($($a),*),
    "i32.f32" => $f::<i32, f32>($($a),*),
    _ => panic!("type") } } }
macro_rules! by_bigzip { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    _ => panic!("type") } } }
include!("viter_body.rs");
