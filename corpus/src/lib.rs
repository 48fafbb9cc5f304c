#![allow(dead_code, unused_imports)]
mod model;
mod gen;
mod io;
mod file;
mod top;
mod misc;
