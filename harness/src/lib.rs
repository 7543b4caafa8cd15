#![feature(try_trait_v2)]
#![allow(dead_code, unused)]
pub mod models;
pub mod roots;
