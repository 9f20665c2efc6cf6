//! WASI preview 1 host used underneath both the interpreter under test and the
//! reference guest.  Outside the guest phase it is a small in-memory file
//! system; inside the guest phase every call is recorded and answered with
//! fresh symbolic responses that depend only on the position in the trace.
use crate::exec::*;
use crate::mem::*;
use crate::term::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Req { pub name: String, pub args: Vec<(V, u8)>, pub data: Vec<Vec<V>>, pub resp: usize }

#[derive(Clone)]
struct Fd { path: String, pos: u64, dir: bool }

#[derive(Clone, Default)]
pub struct Host {
    pub files: BTreeMap<String, Rc<Vec<V>>>,
    fds: BTreeMap<u32, FdOpt>,
    pub argv: Vec<Vec<V>>,
    /// environment strings (bytes may be symbolic), shared by both runs
    pub env: Vec<Vec<V>>,
    pub stdout: Vec<V>,
    pub guest: bool,
    /// answers of the guest phase are concrete (from this model) instead of symbolic
    pub trace: Vec<Req>,
    pub ops: u64,
    /// journal of file-system mutations on real files (crash points)
    pub journal: Vec<String>,
    /// fail the n-th real write-like operation with this errno
    pub file_ops: u64,
    pub err_free: bool,
    /// checkpoint.bin ends after this many bytes (symbolic); its size is reported in full
    pub trunc: Option<V>,
    /// calls on checkpoint.bin whose answer is symbolic: (count, error) of the n-th write, read, open
    pub faults: Option<Faults>,
}
/// Remaining faulty calls on checkpoint.bin.
#[derive(Clone, Default)]
pub struct Faults { pub writes: u32, pub reads: u32, pub opens: u32, pub n: u32, /// a call failed with an error other than an interruption
    pub failed: bool,
    /// consider every count, not only the characteristic ones
    pub every: bool }
#[derive(Clone)]
struct FdOpt(Fd);

const REAL_FD: u32 = 100;

#[derive(Clone, Copy)]
#[allow(dead_code)]
pub enum A { V(u8), Path, IovIn, IovOut, OutBufFull, OutBufUsed, Out(u8), Subs }

pub fn sig(name: &str) -> Option<&'static [A]> {
    use A::*;
    Some(match name {
        "fd_advise" => &[V(32), V(64), V(64), V(32)],
        "fd_allocate" => &[V(32), V(64), V(64)],
        "fd_close" | "fd_datasync" | "fd_sync" => &[V(32)],
        "fd_fdstat_get" => &[V(32), Out(24)],
        "fd_fdstat_set_flags" => &[V(32), V(32)],
        "fd_fdstat_set_rights" => &[V(32), V(64), V(64)],
        "fd_filestat_get" => &[V(32), Out(64)],
        "fd_filestat_set_size" => &[V(32), V(64)],
        "fd_filestat_set_times" => &[V(32), V(64), V(64), V(32)],
        "fd_pread" => &[V(32), IovOut, V(64), Out(4)],
        "fd_prestat_get" => &[V(32), Out(8)],
        "fd_prestat_dir_name" => &[V(32), OutBufFull],
        "fd_pwrite" => &[V(32), IovIn, V(64), Out(4)],
        "fd_read" => &[V(32), IovOut, Out(4)],
        "fd_readdir" => &[V(32), OutBufUsed, V(64), Out(4)],
        "fd_renumber" => &[V(32), V(32)],
        "fd_seek" => &[V(32), V(64), V(32), Out(8)],
        "fd_tell" => &[V(32), Out(8)],
        "fd_write" => &[V(32), IovIn, Out(4)],
        "path_create_directory" | "path_remove_directory" | "path_unlink_file" => &[V(32), Path],
        "path_filestat_get" => &[V(32), V(32), Path, Out(64)],
        "path_filestat_set_times" => &[V(32), V(32), Path, V(64), V(64), V(32)],
        "path_link" => &[V(32), V(32), Path, V(32), Path],
        "path_open" => &[V(32), V(32), Path, V(32), V(64), V(64), V(32), Out(4)],
        "path_readlink" => &[V(32), Path, OutBufUsed, Out(4)],
        "path_rename" => &[V(32), Path, V(32), Path],
        "path_symlink" => &[Path, V(32), Path],
        "poll_oneoff" => &[Subs, Out(4)],
        "proc_raise" => &[V(32)],
        "sched_yield" => &[],
        "clock_res_get" => &[V(32), Out(8)],
        "clock_time_get" => &[V(32), V(64), Out(8)],
        "random_get" => &[OutBufFull],
        "sock_accept" => &[V(32), V(32), Out(4)],
        "sock_recv" => &[V(32), IovOut, V(32), Out(4), Out(2)],
        "sock_send" => &[V(32), IovIn, V(32), Out(4)],
        "sock_shutdown" => &[V(32), V(32)],
        _ => return None,
    })
}

impl Host {
    pub fn file(&mut self, name: &str, b: &[u8]) { self.files.insert(name.into(), Rc::new(b.iter().map(|&x| V::k(x as u64)).collect())); }
    pub fn file_v(&mut self, name: &str, b: Vec<V>) { self.files.insert(name.into(), Rc::new(b)); }
    fn real_path(p: &str) -> bool {
        let p = p.trim_start_matches("./");
        p.starts_with("checkpoint") || p.starts_with('#') || p.starts_with("out.bin") || p.starts_with("args.bin") || p.starts_with("script.bin") || p.starts_with("guest.wasm")
    }
    fn norm(p: &str) -> String { p.trim_start_matches("./").to_string() }
}

fn cstr(mem: &Mem, p: u64, n: u64) -> Option<String> {
    let mut s = Vec::new();
    for i in 0..n { let b = mem.byte(p + i); if b.t != 0 { return None; } s.push(b.c as u8); }
    String::from_utf8(s).ok()
}

impl Eng {
    /// Executes a WASI import.  Arguments are on the operand stack; on success they are replaced by the results.
    pub fn host_call(&mut self, st: &mut State, imp: usize) -> Result<(), Out> {
        let m = st.m.clone();
        let im = &m.imports[imp];
        if im.module != "wasi_snapshot_preview1" { return Err(Out::Unsup(format!("import {}.{}", im.module, im.name))); }
        let n = m.types[im.ty as usize].params.len();
        let l = st.stack.len();
        let args: Vec<V> = st.stack[l - n..].to_vec();
        st.host.ops += 1;
        let r = self.wasi(st, &im.name, &args)?;
        let (r, marker) = r;
        st.stack.truncate(l - n);
        if let Some(v) = r { st.stack.push(v); }
        match marker { Some(s) => Err(Out::Marker(s)), None => Ok(()) }
    }

    fn wasi(&mut self, st: &mut State, name: &str, a: &[V]) -> Result<(Option<V>, Option<String>), Out> {
        match name {
            "proc_exit" => return Err(Out::Exit(a[0])),
            "args_sizes_get" | "args_get" | "environ_sizes_get" | "environ_get" => {
                let list: Vec<Vec<V>> = if name.starts_with("args") { st.host.argv.clone() } else { st.host.env.clone() };
                let p = self.conc(st, a[0]);
                let q = self.conc(st, a[1]);
                if name.ends_with("sizes_get") {
                    if p + 4 > st.mem.len() || q + 4 > st.mem.len() { return Ok((Some(V::k(21)), None)); }
                    st.mem.store_c(p, 4, list.len() as u64);
                    st.mem.store_c(q, 4, list.iter().map(|x| x.len() as u64 + 1).sum());
                } else {
                    let mut off = q;
                    for (i, s) in list.iter().enumerate() {
                        if p + 4 * i as u64 + 4 > st.mem.len() || off + s.len() as u64 + 1 > st.mem.len() { return Ok((Some(V::k(21)), None)); }
                        st.mem.store_c(p + 4 * i as u64, 4, off);
                        for (j, &b) in s.iter().enumerate() { st.mem.set_byte(off + j as u64, b); }
                        st.mem.set_byte(off + s.len() as u64, V::k(0));
                        off += s.len() as u64 + 1;
                    }
                }
                return Ok((Some(V::k(0)), None));
            }
            _ => {}
        }
        // route: real file system or guest phase
        let mut real = !st.host.guest;
        if st.host.guest {
            if name.starts_with("fd_") && a[0].t == 0 && a[0].c >= REAL_FD as u64 && st.host.fds.contains_key(&(a[0].c as u32)) { real = true; }
            if let Some(s) = sig(name) {
                let mut ix = 0;
                for k in s {
                    match k {
                        A::Path => {
                            if let (Some(p), Some(n)) = (self.known_val(st, a[ix]), self.known_val(st, a[ix + 1])) {
                                if p + n <= st.mem.len() { if let Some(s) = cstr(&st.mem, p, n) { if Host::real_path(&s) { real = true; } } }
                            }
                            ix += 2;
                        }
                        A::IovIn | A::IovOut | A::OutBufFull | A::OutBufUsed => ix += 2,
                        A::Subs => ix += 3,
                        _ => ix += 1,
                    }
                }
            }
        }
        if real { self.wasi_real(st, name, a) } else { self.wasi_guest(st, name, a).map(|v| (Some(v), None)) }
    }

    fn wasi_real(&mut self, st: &mut State, name: &str, a: &[V]) -> Result<(Option<V>, Option<String>), Out> {
        let mut k = Vec::new();
        for &v in a { let c = self.conc(st, v); k.push(c); }
        let ok = |e: u64| Ok((Some(V::k(e)), None));
        let fd = k.first().copied().unwrap_or(0) as u32;
        match name {
            "fd_prestat_get" => {
                if fd != 3 { return ok(8); }
                st.mem.store_c(k[1], 4, 0);
                st.mem.store_c(k[1] + 4, 4, 1);
                ok(0)
            }
            "fd_prestat_dir_name" => { if fd != 3 { return ok(8); } st.mem.write_bytes(k[1], b"."); ok(0) }
            "fd_fdstat_get" => {
                let ft = if fd < 3 { 2 } else if fd == 3 { 3 } else if st.host.fds.contains_key(&fd) { 4 } else { return ok(8) };
                st.mem.fill(k[1], 24, V::k(0));
                st.mem.store_c(k[1], 1, ft);
                st.mem.store_c(k[1] + 8, 8, u64::MAX);
                st.mem.store_c(k[1] + 16, 8, u64::MAX);
                ok(0)
            }
            "fd_fdstat_set_flags" | "fd_sync" | "fd_datasync" | "fd_advise" | "sched_yield" => {
                st.host.journal.push(name.to_string());
                ok(0)
            }
            "path_open" => {
                let Some(p) = cstr(&st.mem, k[2], k[3]) else { return Err(Out::Unsup("symbolic path".into())) };
                let p = Host::norm(&p);
                let oflags = k[4];
                if p.is_empty() || p == "." {
                    let n = next_fd(&st.host);
                    st.host.fds.insert(n, FdOpt(Fd { path: p, pos: 0, dir: true }));
                    st.mem.store_c(k[8], 4, n as u64);
                    return ok(0);
                }
                if p == "checkpoint.bin" && st.host.faults.as_ref().map_or(false, |f| f.opens > 0) {
                    if let Err(e) = self.fault(st, "open", 0, 0) { return Ok((Some(e), None)); }
                }
                let exists = st.host.files.contains_key(&p);
                if !exists && oflags & 1 == 0 { return ok(44); }
                if exists && oflags & 4 != 0 { return ok(20); }
                if !exists || oflags & 8 != 0 {
                    st.host.files.insert(p.clone(), Rc::new(vec![]));
                    st.host.journal.push(format!("open-trunc {}", p));
                }
                let n = next_fd(&st.host);
                st.host.fds.insert(n, FdOpt(Fd { path: p, pos: 0, dir: false }));
                st.mem.store_c(k[8], 4, n as u64);
                ok(0)
            }
            "fd_close" => { if st.host.fds.remove(&fd).is_some() || fd < 3 { ok(0) } else { ok(8) } }
            "fd_filestat_get" | "path_filestat_get" => {
                let (size, ft, buf) = if name == "fd_filestat_get" {
                    if fd <= 3 { (0, if fd == 3 { 3 } else { 2 }, k[1]) } else {
                        match st.host.fds.get(&fd) {
                            Some(f) if f.0.dir => (0, 3, k[1]),
                            Some(f) => (st.host.files.get(&f.0.path).map_or(0, |x| x.len()), 4, k[1]),
                            None => return ok(8),
                        }
                    }
                } else {
                    let Some(p) = cstr(&st.mem, k[2], k[3]) else { return Err(Out::Unsup("symbolic path".into())) };
                    let p = Host::norm(&p);
                    if p.starts_with('#') { return Ok((Some(V::k(44)), Some(p))); }
                    match st.host.files.get(&p) { Some(f) => (f.len(), 4, k[4]), None => return ok(44) }
                };
                st.mem.fill(buf, 64, V::k(0));
                st.mem.store_c(buf + 16, 1, ft);
                st.mem.store_c(buf + 24, 8, 1);
                st.mem.store_c(buf + 32, 8, size as u64);
                ok(0)
            }
            "fd_seek" => {
                let Some(f) = st.host.fds.get(&fd).cloned() else { return ok(if fd < 3 { 70 } else { 8 }) };
                let len = st.host.files.get(&f.0.path).map_or(0, |x| x.len()) as i64;
                let base = match k[2] { 0 => 0, 1 => f.0.pos as i64, _ => len };
                let np = base + k[1] as i64;
                if np < 0 { return ok(28); }
                st.host.fds.get_mut(&fd).unwrap().0.pos = np as u64;
                st.mem.store_c(k[3], 8, np as u64);
                ok(0)
            }
            "fd_tell" => {
                let Some(f) = st.host.fds.get(&fd) else { return ok(8) };
                let p = f.0.pos;
                st.mem.store_c(k[1], 8, p);
                ok(0)
            }
            "fd_read" | "fd_pread" => {
                let is_p = name == "fd_pread";
                if fd < 3 { st.mem.store_c(k[3], 4, 0); return ok(0); }
                let Some(f) = st.host.fds.get(&fd).cloned() else { return ok(8) };
                let data = st.host.files.get(&f.0.path).cloned().unwrap_or_default();
                let mut pos = if is_p { k[3] } else { f.0.pos };
                let mut total = 0;
                if f.0.path == "checkpoint.bin" && !is_p {
                    if let Some(t) = st.host.trunc {
                        if pos == 0 {
                            let bp = st.mem.load(&mut self.cx, k[1], 4);
                            let bl = st.mem.load(&mut self.cx, k[1] + 4, 4);
                            if bp.t != 0 || bl.t != 0 || bl.c < data.len() as u64 { return Err(Out::Unsup("first read of the checkpoint is shorter than the file".into())); }
                            for j in 0..data.len() { st.mem.set_byte(bp.c + j as u64, data[j]); }
                            st.host.fds.get_mut(&fd).unwrap().0.pos = data.len() as u64;
                            st.mem.store(&mut self.cx, k[3], 4, t);
                        } else { st.mem.store_c(k[3], 4, 0); }
                        return ok(0);
                    }
                    if st.host.faults.as_ref().map_or(false, |f| f.reads > 0) {
                        let mut room = 0;
                        for i in 0..k[2] { let bl = st.mem.load(&mut self.cx, k[1] + 8 * i + 4, 4); room += self.conc(st, bl); }
                        let avail = room.min((data.len() as u64).saturating_sub(pos));
                        match self.fault(st, "read", avail, if avail > 0 { 1 } else { 0 }) {
                            Ok(mut m) => {
                                let whole = m;
                                for i in 0..k[2] {
                                    let bp = st.mem.load(&mut self.cx, k[1] + 8 * i, 4).c;
                                    let bl = st.mem.load(&mut self.cx, k[1] + 8 * i + 4, 4).c.min(m);
                                    for j in 0..bl { st.mem.set_byte(bp + j, data[(pos + j) as usize]); }
                                    pos += bl;
                                    m -= bl;
                                }
                                st.host.fds.get_mut(&fd).unwrap().0.pos = pos;
                                st.mem.store_c(k[3], 4, whole);
                                return ok(0);
                            }
                            Err(e) => return Ok((Some(e), None)),
                        }
                    }
                }
                for i in 0..k[2] {
                    let bp = st.mem.load(&mut self.cx, k[1] + 8 * i, 4).c;
                    let bl = st.mem.load(&mut self.cx, k[1] + 8 * i + 4, 4).c;
                    let n = bl.min((data.len() as u64).saturating_sub(pos));
                    for j in 0..n { st.mem.set_byte(bp + j, data[(pos + j) as usize]); }
                    pos += n;
                    total += n;
                    if n < bl { break; }
                }
                if !is_p { st.host.fds.get_mut(&fd).unwrap().0.pos = pos; }
                st.mem.store_c(k[if is_p { 4 } else { 3 }], 4, total);
                ok(0)
            }
            "fd_write" => {
                let mut buf = vec![];
                for i in 0..k[2] {
                    let bp = st.mem.load(&mut self.cx, k[1] + 8 * i, 4);
                    let bl = st.mem.load(&mut self.cx, k[1] + 8 * i + 4, 4);
                    let (bp, bl) = (self.conc(st, bp), self.conc(st, bl));
                    for j in 0..bl { buf.push(st.mem.byte(bp + j)); }
                }
                let mut n = buf.len() as u64;
                if fd >= 3 && st.host.fds.get(&fd).map_or(false, |f| f.0.path == "checkpoint.bin") && st.host.faults.as_ref().map_or(false, |f| f.writes > 0) {
                    match self.fault(st, "write", n, 0) { Ok(m) => { n = m; buf.truncate(n as usize); } Err(e) => return Ok((Some(e), None)) }
                }
                if fd < 3 {
                    if fd == 1 { st.host.stdout.extend(buf); }
                } else {
                    let Some(f) = st.host.fds.get_mut(&fd) else { return ok(8) };
                    let pos = f.0.pos as usize;
                    f.0.pos += n;
                    let path = f.0.path.clone();
                    st.host.journal.push(format!("write {} {}", path, n));
                    let file = Rc::make_mut(st.host.files.entry(path).or_default());
                    if file.len() < pos + n as usize { file.resize(pos + n as usize, V::k(0)); }
                    file[pos..pos + n as usize].copy_from_slice(&buf);
                }
                st.mem.store_c(k[3], 4, n);
                ok(0)
            }
            "path_unlink_file" => {
                let Some(p) = cstr(&st.mem, k[1], k[2]) else { return Err(Out::Unsup("symbolic path".into())) };
                let p = Host::norm(&p);
                st.host.journal.push(format!("unlink {}", p));
                if st.host.files.remove(&p).is_some() { ok(0) } else { ok(44) }
            }
            "path_rename" => {
                let (Some(p), Some(q)) = (cstr(&st.mem, k[1], k[2]), cstr(&st.mem, k[4], k[5])) else { return Err(Out::Unsup("symbolic path".into())) };
                let (p, q) = (Host::norm(&p), Host::norm(&q));
                st.host.journal.push(format!("rename {} {}", p, q));
                match st.host.files.remove(&p) { Some(d) => { st.host.files.insert(q, d); ok(0) } None => ok(44) }
            }
            "fd_filestat_set_size" => {
                let Some(f) = st.host.fds.get(&fd) else { return ok(8) };
                let path = f.0.path.clone();
                Rc::make_mut(st.host.files.entry(path).or_default()).resize(k[1] as usize, V::k(0));
                ok(0)
            }
            "random_get" => { for i in 0..k[1] { st.mem.set_byte(k[0] + i, V::k((i * 37 + 11) & 255)); } ok(0) }
            "clock_time_get" => { st.mem.store_c(k[2], 8, 1_700_000_000_000_000_000 + st.host.ops * 1000); ok(0) }
            "clock_res_get" => { st.mem.store_c(k[1], 8, 1); ok(0) }
            _ => Err(Out::Unsup(format!("host call {}", name))),
        }
    }

    /// Symbolic outcome of a call on checkpoint.bin: a count from `min` to `len`, or an error.
    fn fault(&mut self, st: &mut State, what: &str, len: u64, min: u64) -> Result<u64, V> {
        let n = st.host.faults.as_ref().unwrap().n;
        let (v, e) = (self.cx.var(&format!("{}{}", what, n), 32), self.cx.var(&format!("errno{}", n), 32));
        let (lo, hi, e1, e2, intr) = (self.cx.k(min, 32), self.cx.k(len, 32), self.cx.k(1, 32), self.cx.k(76, 32), self.cx.k(27, 32));
        let a = self.cx.ule(lo, v);
        self.constrain(st, a);
        let a = self.cx.ule(e1, e);
        self.constrain(st, a);
        let a = self.cx.ule(e, e2);
        self.constrain(st, a);
        let good = self.cx.ule(v, hi);
        if what == "read" || !st.host.faults.as_ref().unwrap().every {
            // counts considered: the least, the whole, one less, one and half of it
            let mut any = self.cx.not(good);
            for k in [min, 1.min(len), len / 2, len.saturating_sub(1).max(min), len] { let c = self.cx.k(k.max(min), 32); let q = self.cx.eq(v, c); any = self.cx.or(any, q); }
            self.constrain(st, any);
        }
        if self.decide(st, good) {
            let t = tov(&self.cx, v);
            let k = self.conc(st, t);
            self.used(st, what);
            return Ok(k);
        }
        let i = self.cx.eq(e, intr);
        let interrupted = self.decide(st, i);
        self.used(st, what);
        if !interrupted { st.host.faults.as_mut().unwrap().failed = true; }
        Err(tov(&self.cx, e))
    }
    fn used(&mut self, st: &mut State, what: &str) {
        let f = st.host.faults.as_mut().unwrap();
        f.n += 1;
        match what { "write" => f.writes -= 1, "read" => f.reads -= 1, _ => f.opens -= 1 }
    }

    fn wasi_guest(&mut self, st: &mut State, name: &str, a: &[V]) -> Result<V, Out> {
        let Some(s) = sig(name) else { return Err(Out::Unsup(format!("host call {}", name))) };
        let mut req = Req { name: name.into(), args: vec![], data: vec![], resp: st.host.trace.len() };
        let n = st.host.trace.len();
        let nm = |f: &str| format!("w{}.{}.{}", n, name, f);
        // 1. resolve everything that may fork
        let mut ix = 0;
        let mut outs: Vec<(u64, u64)> = vec![]; // plain outputs
        let mut bufs: Vec<(u64, u64)> = vec![]; // pieces to fill
        let mut partial = false;
        let mlen = st.mem.len();
        for k in s {
            match *k {
                A::V(w) => { req.args.push((a[ix], w)); ix += 1; }
                A::Path => {
                    let p = self.conc(st, a[ix]);
                    let l = self.conc(st, a[ix + 1]);
                    if p + l > mlen { return Ok(V::k(21)); }
                    if l > 4096 { return Err(Out::Unsup("long path".into())); }
                    req.data.push((0..l).map(|i| st.mem.byte(p + i)).collect());
                    ix += 2;
                }
                A::IovIn | A::IovOut => {
                    let p = self.conc(st, a[ix]);
                    let c = self.conc(st, a[ix + 1]);
                    ix += 2;
                    let mut d = vec![];
                    for i in 0..c {
                        if p + 8 * i + 8 > mlen { return Ok(V::k(21)); }
                        let bp = st.mem.load(&mut self.cx, p + 8 * i, 4);
                        let bl = st.mem.load(&mut self.cx, p + 8 * i + 4, 4);
                        let (bp, bl) = (self.conc(st, bp), self.conc(st, bl));
                        if bp + bl > mlen { return Ok(V::k(21)); }
                        if bl > 4096 { return Err(Out::Unsup("large transfer".into())); }
                        if matches!(k, A::IovIn) { for j in 0..bl { d.push(st.mem.byte(bp + j)); } } else { bufs.push((bp, bl)); partial = true; }
                    }
                    if matches!(k, A::IovIn) { req.data.push(d); } else { req.args.push((V::k(bufs.iter().map(|x| x.1).sum()), 32)); }
                }
                A::OutBufFull | A::OutBufUsed => {
                    let p = self.conc(st, a[ix]);
                    let l = self.conc(st, a[ix + 1]);
                    ix += 2;
                    if p + l > mlen { return Ok(V::k(21)); }
                    if l > 4096 { return Err(Out::Unsup("large transfer".into())); }
                    req.args.push((V::k(l), 32));
                    bufs.push((p, l));
                    if matches!(k, A::OutBufUsed) { partial = true; }
                }
                A::Out(sz) => {
                    let p = self.conc(st, a[ix]);
                    ix += 1;
                    if p + sz as u64 > mlen { return Ok(V::k(21)); }
                    outs.push((p, sz as u64));
                }
                A::Subs => {
                    let p = self.conc(st, a[0]);
                    let q = self.conc(st, a[1]);
                    let c = self.conc(st, a[2]);
                    ix += 3;
                    if c > 16 { return Err(Out::Unsup("many subscriptions".into())); }
                    if p + 48 * c > mlen || q + 32 * c > mlen { return Ok(V::k(21)); }
                    req.data.push((0..48 * c).map(|i| st.mem.byte(p + i)).collect());
                    req.args.push((V::k(c), 32));
                    bufs.push((q, 32 * c));
                    partial = true;
                }
            }
        }
        // 2. answer
        let (errno, ok) = if st.host.err_free { (V::k(0), self.cx.tt) } else {
            let e16 = self.cx.var(&nm("errno"), 16);
            let lim = self.cx.k(77, 16);
            let c = self.cx.ult(e16, lim);
            self.constrain(st, c);
            let z = self.cx.k(0, 16);
            let ok = self.cx.eq(e16, z);
            let e = self.cx.zext(e16, 32);
            (tov(&self.cx, e), ok)
        };
        let total: u64 = bufs.iter().map(|x| x.1).sum();
        let mut used: Option<T> = None;
        let mut first_out = 0;
        let has_count = partial || matches!(name, "fd_write" | "fd_pwrite" | "sock_send");
        if has_count && !outs.is_empty() {
            // the first plain output is the transferred count
            let lim = if partial { if name == "poll_oneoff" { total / 32 } else { total } } else { req.data.last().map_or(0, |d| d.len() as u64) };
            let u = self.cx.var(&nm("n"), 32);
            let l = self.cx.k(lim, 32);
            let c = self.cx.ule(u, l);
            self.constrain(st, c);
            let (p, _) = outs[0];
            self.write_if(st, ok, p, u, 4);
            if partial { used = Some(u); }
            first_out = 1;
        }
        for (i, &(p, sz)) in outs.iter().enumerate().skip(first_out) {
            let mut off = 0;
            while off < sz {
                let k = (sz - off).min(8);
                let v = self.cx.var(&nm(&format!("o{}_{}", i, off)), (k * 8) as u8);
                self.write_if(st, ok, p + off, v, k as usize);
                off += k;
            }
        }
        let mut off = 0u64;
        for &(p, l) in &bufs {
            for j in 0..l {
                let v = self.cx.var(&nm(&format!("d{}", off)), 8);
                let c = match used {
                    Some(u) => {
                        let unit = if name == "poll_oneoff" { off / 32 } else { off };
                        let kt = self.cx.k(unit, 32);
                        let lt = self.cx.ult(kt, u);
                        self.cx.and(ok, lt)
                    }
                    None => ok,
                };
                self.write_if(st, c, p + j, v, 1);
                off += 1;
            }
        }
        st.host.trace.push(req);
        Ok(errno)
    }
    /// Adds a constraint on fresh response variables; keeps the model valid.
    pub fn constrain(&mut self, st: &mut State, c: T) {
        if self.cx.cv(c).is_some() || self.known_bool(st, c) == Some(true) { return; }
        let okm = match &st.model { Some(m) => m.eval(&self.cx, c) != 0, None => false };
        self.assume(st, c, true);
        if !okm {
            st.model = match self.sol.check(&self.cx, &st.pc, &[]) { crate::solver::Res::Sat(m) => Some(m), _ => None };
        }
    }
    fn write_if(&mut self, st: &mut State, c: T, p: u64, v: T, n: usize) {
        for i in 0..n {
            let nb = self.cx.extract(v, 8 * i as u8, 8);
            let o = st.mem.byte(p + i as u64);
            let ob = self.term(o, 8);
            let t = self.cx.ite(c, nb, ob);
            let val = tov(&self.cx, t);
            st.mem.set_byte(p + i as u64, val);
        }
    }
}

fn next_fd(h: &Host) -> u32 { let mut n = REAL_FD; while h.fds.contains_key(&n) { n += 1; } n }
