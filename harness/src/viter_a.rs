//! One quarter of the element types: see viter_body.rs.
#![allow(unused_macros, unused_variables, dead_code, unreachable_code)]
mod common;
mod zoned;
macro_rules! by_type { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    "u8" => $f::<u8>($($a),*),
    "i8" => $f::<i8>($($a),*),
    _ => panic!("type") } } }
macro_rules! by_mix { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    "u8" => $f::<u8>($($a),*),
    _ => panic!("type") } } }
macro_rules! by_szip { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    "u8" => $f::<u8>($($a),*),
    "i8" => $f::<i8>($($a),*),
    _ => panic!("type") } } }
macro_rules! by_zip { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    "u8.i8" => $f::<u8, i8>($($a),*),
    "u8.u32" => $f::<u8, u32>($($a),*),
    _ => panic!("type") } } }
macro_rules! by_bigzip { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    "u8.i8" => $f::<u8, i8>($($a),*),
    _ => panic!("type") } } }
include!("viter_body.rs");
