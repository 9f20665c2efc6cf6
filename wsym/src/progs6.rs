//! Guest programs of the host-call properties.
use crate::diff::*;
use crate::gen::*;
use crate::host::{sig, A};
use crate::progs::win;
use crate::rgen::Rng;
use crate::wasm::Ty::{self, *};

pub const CALLS: [&str; 40] = ["fd_advise", "fd_allocate", "fd_close", "fd_datasync", "fd_sync", "fd_fdstat_get", "fd_fdstat_set_flags", "fd_fdstat_set_rights", "fd_filestat_get", "fd_filestat_set_size",
    "fd_filestat_set_times", "fd_pread", "fd_prestat_get", "fd_prestat_dir_name", "fd_pwrite", "fd_read", "fd_readdir", "fd_renumber", "fd_seek", "fd_tell", "fd_write", "path_create_directory",
    "path_remove_directory", "path_unlink_file", "path_filestat_get", "path_filestat_set_times", "path_link", "path_open", "path_readlink", "path_rename", "path_symlink", "poll_oneoff", "sched_yield",
    "clock_res_get", "clock_time_get", "random_get", "sock_accept", "sock_recv", "sock_send", "sock_shutdown"];

/// Type of an import.
fn ty(name: &str) -> Vec<Ty> {
    match name {
        "proc_exit" => return vec![I32],
        "args_get" | "args_sizes_get" | "environ_get" | "environ_sizes_get" => return vec![I32, I32],
        _ => {}
    }
    let mut v = vec![];
    for k in sig(name).unwrap() {
        match k { A::V(64) => v.push(I64), A::V(_) | A::Out(_) => v.push(I32), A::Subs => v.extend([I32, I32, I32]), _ => v.extend([I32, I32]) }
    }
    v
}
fn import(name: &str, id: &str) -> String {
    let r = if name == "proc_exit" { "" } else { "(result i32)" };
    format!("(import \"wasi_snapshot_preview1\" \"{}\" (func ${} {} {}))", name, id, tys("param", &ty(name)), r)
}
/// Scalar arguments narrower than their core type: (position among scalars, bits).
fn narrow(name: &str, k: usize) -> Option<u8> {
    Some(match (name, k) {
        ("fd_advise", 3) | ("fd_seek", 2) | ("sock_shutdown", 1) | ("proc_raise", 0) => 8,
        ("fd_fdstat_set_flags", 1) | ("fd_filestat_set_times", 3) | ("path_filestat_set_times", 4) => 16,
        ("path_open", 2) | ("path_open", 5) => 16,
        ("sock_accept", 1) | ("sock_recv", 1) | ("sock_send", 1) => 16,
        _ => return None,
    })
}

/// Where a call's pointers go.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lay { Plain, Odd, Empty, End, Grown, Overlap, SymPtr, SymLen }

/// Data of the initial memory and the call's arguments (as code) for a layout; `p` numbers the parameters used.
struct Site { args: Vec<String>, params: Vec<Ty>, narrow: Vec<(usize, u8)>, windows: Vec<(usize, u64, u64)>, data: Vec<(u32, Vec<u8>)>, sym: Vec<(u32, usize)> }

fn site(name: &str, lay: Lay, base: u32) -> Site {
    let mut s = Site { args: vec![], params: vec![], narrow: vec![], windows: vec![], data: vec![], sym: vec![] };
    let odd = if lay == Lay::Odd { 3 } else { 0 };
    let far = match lay { Lay::End => 65536, Lay::Grown => 131072, _ => 0 };
    let mut at = base; // next free region
    let mut end = far;
    let mut scal = 0;
    let mut outs = 0;
    let at_out = |size: u32, at: &mut u32, end: &mut u32| -> u32 {
        if far > 0 { *end -= size; *end } else { let r = *at + odd; *at += (size + 15) & !7; r }
    };
    for k in sig(name).unwrap() {
        match *k {
            A::V(w) => {
                s.args.push(format!("local.get {}", s.params.len()));
                if let Some(b) = narrow(name, scal) { s.narrow.push((s.params.len(), b)); }
                s.params.push(if w == 64 { I64 } else { I32 });
                scal += 1;
            }
            A::Path => {
                let l = if lay == Lay::Empty { 0 } else { 5 };
                let p = at + odd;
                at += 16;
                s.sym.push((p, l as usize));
                if lay == Lay::SymLen {
                    s.args.push(format!("i32.const {}", p));
                    s.args.push(format!("local.get {}", s.params.len()));
                    s.windows.push((s.params.len(), 0, 5));
                    s.params.push(I32);
                } else if lay == Lay::SymPtr {
                    s.args.push(format!("local.get {}", s.params.len()));
                    s.windows.push((s.params.len(), p as u64, p as u64 + 2));
                    s.params.push(I32);
                    s.args.push(format!("i32.const {}", l - 2));
                } else { s.args.push(format!("i32.const {}", p)); s.args.push(format!("i32.const {}", l)); }
            }
            A::IovIn | A::IovOut => {
                // three pieces; the middle one empty
                let v = at + odd;
                at += 40;
                let mut d = vec![];
                let mut list = vec![];
                for l in [5u32, 0, 3] {
                    let l = if lay == Lay::Empty && l == 3 { 0 } else { l };
                    let b = if matches!(k, A::IovOut) { at_out(l, &mut at, &mut end) } else { let b = at + odd; at += 8; b };
                    d.extend(b.to_le_bytes());
                    d.extend(l.to_le_bytes());
                    list.push((b, l));
                }
                s.data.push((v, d));
                if matches!(k, A::IovIn) { for (b, l) in list { s.sym.push((b, l as usize)); } }
                s.args.push(format!("i32.const {}", v));
                if lay == Lay::SymLen {
                    s.args.push(format!("local.get {}", s.params.len()));
                    s.windows.push((s.params.len(), 0, 3));
                    s.params.push(I32);
                } else { s.args.push(format!("i32.const {}", if lay == Lay::Empty { 0 } else { 3 })); }
            }
            A::OutBufFull | A::OutBufUsed => {
                let l = if lay == Lay::Empty { 0 } else { 9 };
                let p = at_out(l, &mut at, &mut end);
                if lay == Lay::SymPtr { s.args.push(format!("local.get {}", s.params.len())); s.windows.push((s.params.len(), p as u64, p as u64 + 2)); s.params.push(I32); }
                else { s.args.push(format!("i32.const {}", p)); }
                if lay == Lay::SymLen { s.args.push(format!("local.get {}", s.params.len())); s.windows.push((s.params.len(), if name == "random_get" { 1 } else { 0 }, 5)); s.params.push(I32); }
                else { s.args.push(format!("i32.const {}", l)); }
            }
            A::Out(n) => {
                let p = at_out(n as u32, &mut at, &mut end);
                let p = if lay == Lay::Overlap && base > 8 { base + 2 + 4 * outs } else { p };
                outs += 1;
                if lay == Lay::SymPtr { s.args.push(format!("local.get {}", s.params.len())); s.windows.push((s.params.len(), p as u64, p as u64 + 3)); s.params.push(I32); }
                else { s.args.push(format!("i32.const {}", p)); }
            }
            A::Subs => {
                let n = if lay == Lay::Empty { 1 } else { 2 };
                let p = at + odd;
                at += 48 * n + 8;
                s.sym.push((p, 48 * n as usize));
                let q = at_out(32 * n, &mut at, &mut end);
                s.args.push(format!("i32.const {}", p));
                s.args.push(format!("i32.const {}", q));
                s.args.push(format!("i32.const {}", n));
            }
        }
    }
    s
}

/// Data segments with the fixed bytes, and one symbolic byte variable per input byte.
fn segments(s: &Site, tag: usize) -> (String, Vec<Mark>) {
    let mut o = String::new();
    for (a, d) in &s.data { o.push_str(&format!("(data (i32.const {}) \"{}\")", a, d.iter().map(|b| format!("\\{:02x}", b)).collect::<String>())); }
    let mut marks = vec![];
    let mut n = 0;
    for &(a, l) in &s.sym {
        let mut off = 0;
        while off < l {
            let k = (l - off).min(48);
            let pat: String = format!("<{}{}", tag, (b'a' + n as u8) as char).chars().chain(std::iter::repeat('~')).take(k.max(4)).collect();
            n += 1;
            o.push_str(&format!("(data (i32.const {}) \"{}\")", a as usize + off, pat));
            marks.push(Mark::Bytes(pat, format!("b{}_{}_", tag, n)));
            off += k;
        }
    }
    (o, marks)
}

fn finish(mut p: Prog, s: &[Site], marks: Vec<Mark>, prefix: &[usize]) -> Prog {
    let mut bytes: Vec<(String, usize)> = vec![];
    for m in marks {
        if let Mark::Bytes(pat, v) = &m { bytes.push((v.clone(), pat.len())); }
        p = p.mark(m);
    }
    let mut nar: Vec<(String, u8)> = vec![];
    let mut wins: Vec<(String, u64, u64)> = vec![];
    for (k, x) in s.iter().enumerate() {
        for &(i, b) in &x.narrow { nar.push((format!("i32{}", prefix[k] + i), b)); }
        for &(i, l, h) in &x.windows { wins.push((format!("i32{}", prefix[k] + i), l, h)); }
    }
    p.assume(move |cx| {
        let mut v = vec![];
        for (n, b) in &nar { v.extend(win(cx, n, 0, (1u64 << b) - 1)); }
        for (n, l, h) in &wins { v.extend(win(cx, n, *l, *h)); }
        // no NUL inside a path
        for (n, l) in &bytes { for i in 0..*l { let x = cx.var(&format!("{}{}", n, i), 8); let z = cx.k(0, 8); let e = cx.ne(x, z); v.push(e); } }
        v
    })
}

/// One call in every layout.
pub fn single(name: &str, lay: Lay) -> Option<Prog> {
    let s = site(name, lay, 16);
    if lay == Lay::SymPtr && s.windows.is_empty() || lay == Lay::SymLen && s.windows.is_empty() { return None; }
    if name == "random_get" && lay == Lay::Empty { return None; } // answered without asking
    let plain = site(name, Lay::Plain, 16);
    if lay != Lay::Plain && plain.args == s.args && plain.data == s.data { return None; }
    let (data, marks) = segments(&s, 0);
    let pre = if lay == Lay::Grown { "i32.const 1 memory.grow drop " } else { "" };
    let w = format!("(module {} (memory 1 3) {} (func (export \"f\") {} (result i32) {}{} call $h))", import(name, "h"), data, tys("param", &s.params), pre, s.args.join(" "));
    let mut p = Prog::new(&format!("{} {:?}", name, lay), &w).call("f", &symargs("", &s.params)).mem(0, 400);
    if lay == Lay::End { p = p.mem(65536 - 96, 96); }
    if lay == Lay::Grown { p = p.mem(131072 - 96, 96); }
    Some(finish(p, &[s], marks, &[0]))
}

/// A scalar's variable names follow `symargs`: type and index.
fn shift(a: &str, by: usize) -> String {
    a.strip_prefix("local.get ").map(|n| format!("local.get {}", n.parse::<usize>().unwrap() + by)).unwrap_or(a.to_string())
}

/// Several imports in a shuffled order, three of them called one after the other around guest code.
fn mixed(seed: u64, n: usize) -> Vec<Prog> {
    let mut r = Rng::new(seed);
    let cheap: Vec<&str> = CALLS.iter().copied().filter(|c| !["poll_oneoff", "fd_filestat_get", "path_filestat_get", "path_link", "path_rename", "path_symlink", "sock_recv", "sock_send"].contains(c)).collect();
    (0..n).map(|i| {
        let mut list = cheap.clone();
        for k in (1..list.len()).rev() { let j = r.below(k + 1); list.swap(k, j); }
        let list = &list[..12];
        let imports: String = list.iter().enumerate().map(|(k, c)| import(c, &format!("h{}", k))).collect();
        let (mut body, mut params, mut prefix, mut sites, mut data, mut marks) = (String::new(), vec![], vec![], vec![], String::new(), vec![]);
        for c in 0..2 {
            let k = r.below(list.len());
            let s = site(list[k], Lay::Plain, 16 + 160 * c as u32);
            let (d, m) = segments(&s, c);
            data.push_str(&d);
            marks.extend(m);
            prefix.push(params.len());
            let args = s.args.iter().map(|a| shift(a, params.len())).collect::<Vec<_>>().join(" ");
            params.extend(s.params.iter().copied());
            body.push_str(&match r.below(4) {
                0 => format!("{} call $h{} global.set $e{} ", args, k, c),
                1 => format!("{} call $h{} i32.const 3 i32.eq if i32.const 7 global.set $e{} else i32.const {} global.set $e{} end ", args, k, c, 9 + c, c),
                2 => format!("(block (result i32) {} call $h{} br 0) global.get $e{} i32.add global.set $e{} ", args, k, c, c),
                _ => format!("i32.const 1000 {} call $h{} i32.sub call $u global.set $e{} ", args, k, c),
            });
            sites.push(s);
        }
        let w = format!("(module {} (memory 1 3) (global $e0 (mut i32) (i32.const 5)) (global $e1 (mut i32) (i32.const 6)) {} (func $u (param i32) (result i32) local.get 0 i32.const 1 i32.add) (func (export \"f\") {} {}))", imports, data, tys("param", &params), body);
        let p = Prog::new(&format!("mixed {}.{}", seed, i), &w).call("f", &symargs("", &params)).globals().mem(0, 400);
        finish(p, &sites, marks, &prefix)
    }).collect()
}

pub fn wasi(th: bool) -> Vec<Prog> {
    use Lay::*;
    let mut out = vec![];
    for name in CALLS {
        for lay in [Plain, Odd, Empty, End, Grown, Overlap, SymPtr, SymLen] { out.extend(single(name, lay)); }
    }
    // arguments and environment
    let lists: [&[&str]; 6] = [&["guest.wasm"], &["guest.wasm", "a", "", "--flag=1"], &["g", "12345678", "1234567", "123456789"], &["x y", "\u{e9}\u{4e2d}", "\"q\""], &[""], &["guest.wasm", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11"]];
    for (i, l) in lists.iter().enumerate() {
        for (what, odd) in [("args", 0), ("args", 1), ("environ", 0), ("environ", 3)] {
            let w = format!("(module {} {} (memory 1) (data (i32.const 0) \"{}\") (data (i32.const 65520) \"abcdefghijklmnop\") (func (export \"f\") (result i32 i32) i32.const {} i32.const {} call $s i32.const {} i32.const 400 call $g) (func (export \"top\") (result i32) i32.const 65532 i32.const 65024 call $g))",
                import(&format!("{}_sizes_get", what), "s"), import(&format!("{}_get", what), "g"), "wxyz".repeat(150), 4 + odd, 8 + odd, 64 + odd);
            let mut p = Prog::new(&format!("{} {} {}", what, i, odd), &w);
            if what == "args" { p.argv = l.iter().map(|x| x.to_string()).collect(); } else { p.env = l.iter().filter(|x| !x.is_empty()).enumerate().map(|(k, x)| (format!("V{}", k), x.len().min(7))).collect(); }
            p = p.call("f", &[]).mem(0, 600);
            if l.len() == 1 { p = p.call("top", &[]).mem(65000, 536); }
            out.push(p);
        }
    }
    // exit codes, from various depths
    for (n, b) in [("top", "local.get 0 call $x"), ("call", "local.get 0 call $d i32.const 9 global.set $g"), ("loop", "(loop $l local.get 0 if local.get 0 call $x end local.get 0 i32.const 1 i32.add local.set 0 br $l)"), ("branch", "local.get 0 i32.const 3 i32.and br_table 0 0 0 0")] {
        let w = format!("(module {} {} (memory 1) (global $g (mut i32) (i32.const 1)) (data (i32.const 0) \"\\10\\00\\00\\00\\01\\00\\00\\00\") (func $d (param i32) i32.const 1 i32.const 0 i32.const 1 i32.const 8 call $w drop local.get 0 call $x) (func (export \"f\") (param i32) {}))", import("proc_exit", "x"), import("fd_write", "w"), b);
        out.push(Prog::new(&format!("proc_exit {}", n), &w).call("f", &symargs("", &[I32])).globals());
    }
    out.extend(mixed(171, if th { 4000 } else { 400 }));
    out
}
