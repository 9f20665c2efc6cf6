#![allow(dead_code)]
mod ckpt;
mod faults;
mod resources;
mod cli;
mod diff;
mod exec;
mod gen;
mod host;
mod mem;
mod props;
mod progs;
mod progs2;
mod progs3;
mod progs4;
mod progs5;
mod progs6;
mod progs7;
mod reenc;
mod rgen;
mod run;
mod solver;
mod term;
mod wasm;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 4 && a[1] == "wat" { std::fs::write(&a[3], wat::parse_file(&a[2]).unwrap()).unwrap(); return; }
    // symbolic terms are deep; run everything on big stacks
    let code = std::thread::Builder::new().stack_size(1 << 30).spawn(move || run::main(&a)).unwrap().join().unwrap_or(2);
    std::process::exit(code);
}
