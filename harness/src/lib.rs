//! Harnesses for the solver-based checks: every `h..` function is executed symbolically.
#![allow(clippy::all)]
#![allow(non_snake_case)]
mod rt;
mod h_metadata;
mod h_malformed;
mod h_values;
mod h_ifd;
mod h_cache;
mod h_tile;
mod h_decode;
mod h_reader;
mod h_file;
