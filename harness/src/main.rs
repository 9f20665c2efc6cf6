//! Driver around the public API of the interpreter under test.  It runs as an
//! ordinary WASI command: reads `script.bin`, appends records to `out.bin`.
//! The same binary is executed symbolically by wsym and concretely by wasmtime
//! (counterexample replay).
use chiwawa::error::RuntimeError;
use chiwawa::execution::migration;
use chiwawa::execution::module::*;
use chiwawa::execution::runtime::Runtime;
use chiwawa::execution::value::*;
use chiwawa::parser;
use chiwawa::structure::module::Module;
use rustc_hash::FxHashMap;
use std::fs::File;
use std::io::{Read, Write};
use std::rc::Rc;

/// Counts live heap bytes, so that a script can report how far a call raises them.
struct Counting;
static mut LIVE: u32 = 0;
static mut PEAK: u32 = 0;
static mut BASE: u32 = 0;
#[inline(always)]
unsafe fn live(n: u32) { LIVE = n; if n > PEAK { PEAK = n; } }
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { live(LIVE.wrapping_add(l.size() as u32)); std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { live(LIVE.wrapping_add(l.size() as u32)); std::alloc::System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE = LIVE.wrapping_sub(l.size() as u32); std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { live(LIVE.wrapping_add(n as u32).wrapping_sub(l.size() as u32)); std::alloc::System.realloc(p, l, n) }
}
#[global_allocator]
static ALLOC: Counting = Counting;

struct Rd<'a> { b: &'a [u8], p: usize }
impl<'a> Rd<'a> {
    fn u8(&mut self) -> u8 { let v = self.b[self.p]; self.p += 1; v }
    fn u32(&mut self) -> u32 { let v = u32::from_le_bytes(self.b[self.p..self.p + 4].try_into().unwrap()); self.p += 4; v }
    fn bytes(&mut self) -> &'a [u8] { let n = self.u8() as usize; let v = &self.b[self.p..self.p + n]; self.p += n; v }
    fn str(&mut self) -> String { String::from_utf8(self.bytes().to_vec()).unwrap() }
}

#[inline(never)]
fn marker(n: &str) { let _ = std::fs::metadata(n); }

struct Ctx { insts: Vec<Rc<ModuleInst>>, inst: Option<Rc<ModuleInst>>, module: Module, ext: Vec<Ref>, out: File, args: Option<File> }

impl Ctx {
    fn encode(&mut self, v: &Val) -> [u8; 9] {
        let (t, x) = match v {
            Val::Num(Num::I32(x)) => (0u8, *x as u32 as u64),
            Val::Num(Num::I64(x)) => (1, *x as u64),
            Val::Num(Num::F32(x)) => (2, x.to_bits() as u64),
            Val::Num(Num::F64(x)) => (3, x.to_bits()),
            Val::Ref(Ref::RefNull) => (4, 0),
            Val::Ref(Ref::FuncAddr(f)) => {
                let mut ix = 0xffff_ffffu64;
                if let Some(inst) = &self.inst {
                    for (i, g) in inst.func_addrs.iter().enumerate() { if Rc::ptr_eq(f.get_rc(), g.get_rc()) { ix = i as u64 + 1; break; } }
                }
                (4, ix)
            }
            Val::Ref(r @ Ref::RefExtern(_)) => {
                let ix = self.ext.iter().position(|e| e == r).map_or(0xffff_ffff, |i| i as u64 + 1);
                (4, ix)
            }
            _ => (9, 0),
        };
        let mut o = [0u8; 9];
        o[0] = t;
        o[1..9].copy_from_slice(&x.to_le_bytes());
        o
    }
    fn arg(&mut self, tag: u8) -> Val {
        let mut b = [0u8; 8];
        self.args.as_mut().unwrap().read_exact(&mut b).unwrap();
        let lo = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        match tag {
            0 => Val::Num(Num::I32(lo as i32)),
            1 => Val::Num(Num::I64(i64::from_le_bytes(b))),
            2 => Val::Num(Num::F32(f32::from_bits(lo))),
            3 => Val::Num(Num::F64(f64::from_bits(u64::from_le_bytes(b)))),
            4 => if lo == 0 { Val::Ref(Ref::RefNull) } else { Val::Ref(Ref::FuncAddr(self.inst.as_ref().unwrap().func_addrs[lo as usize - 1].clone())) },
            _ => if lo == 0 { Val::Ref(Ref::RefNull) } else { Val::Ref(self.ext[lo as usize - 1].clone()) },
        }
    }
    fn finish(&mut self, r: Result<Vec<Val>, RuntimeError>) {
        let mut o = vec![];
        match r {
            Ok(vs) => {
                o.push(0u8);
                o.push(vs.len() as u8);
                for v in &vs { o.extend_from_slice(&self.encode(v)); }
            }
            Err(RuntimeError::CheckpointRequested) => { o.push(2); o.push(0); }
            Err(_) => { o.push(1); o.push(0); }
        }
        self.out.write_all(&o).unwrap();
    }
}

/// The checkpoint request appears at the poll with this index (poll.bin; none: never).
static mut REQUEST_AT: u32 = u32::MAX;
static mut POLLS: u32 = 0;
extern "C" {
    fn __real___wasi_path_filestat_get(fd: i32, flags: i32, path: *const u8, out: *mut u8) -> i32;
}
#[no_mangle]
unsafe extern "C" fn __wrap___wasi_path_filestat_get(fd: i32, flags: i32, path: *const u8, out: *mut u8) -> i32 {
    const NAME: &[u8] = b"checkpoint.trigger\0";
    let mut p = path;
    if *p == b'.' && *p.add(1) == b'/' { p = p.add(2); }
    let mut i = 0;
    while i < NAME.len() && *p.add(i) == NAME[i] { i += 1; }
    if i == NAME.len() {
        if POLLS == REQUEST_AT {
            marker("#REQUEST");
            File::create("checkpoint.trigger").unwrap();
        }
        POLLS += 1;
    }
    __real___wasi_path_filestat_get(fd, flags, path, out)
}

fn main() {
    if let Ok(b) = std::fs::read("poll.bin") { unsafe { REQUEST_AT = u32::from_le_bytes([b[0], b[1], b[2], b[3]]); } }
    let script = std::fs::read("script.bin").expect("script.bin");
    let out = File::create("out.bin").expect("out.bin");
    let mut c = Ctx { insts: vec![], inst: None, module: Module::new("test"), ext: vec![], out, args: None };
    let mut rd = Rd { b: &script, p: 0 };
    while rd.p < script.len() {
        match rd.u8() {
            1 => {
                c.module = Module::new("test");
                let ok = parser::parse_bytecode(&mut c.module, "guest.wasm").is_ok();
                c.out.write_all(&[ok as u8]).unwrap();
            }
            2 => {
                let n = rd.u8();
                let argv: Vec<String> = (0..n).map(|_| rd.str()).collect();
                let imports: ImportObjects = FxHashMap::default();
                marker("#INST");
                let r = ModuleInst::new(&c.module, imports, argv);
                marker("#INSTEND");
                let ok = r.is_ok();
                c.inst = r.ok();
                if let Some(i) = &c.inst { c.insts.push(i.clone()); }
                c.out.write_all(&[ok as u8]).unwrap();
                if !ok { break; }
                if c.ext.is_empty() {
                    for _ in 0..4 { c.ext.push(Ref::RefExtern(ExternAddr::new(Externval::Mem(chiwawa::execution::mem::MemAddr::new(&chiwawa::structure::types::MemType(chiwawa::structure::types::Limits { min: 0, max: None })))))); }
                }
            }
            3 => {
                let name = rd.str();
                let flags = rd.u8();
                let tags = rd.bytes();
                marker("#ARGS");
                if c.args.is_none() { c.args = Some(File::open("args.bin").expect("args.bin")); }
                let params: Vec<Val> = tags.iter().map(|&t| c.arg(t)).collect();
                let inst = c.inst.clone().unwrap();
                match inst.get_export_func(&name) {
                    Ok(f) => {
                        marker("#RUN");
                        let rt = Runtime::new(inst, &f, params, flags & 2 != 0, flags & 1 != 0, #[cfg(feature = "trace")] (flags & 8 != 0).then(|| chiwawa::execution::trace::TraceConfig::new(None, None, None)));
                        let r = match rt { Ok(mut rt) => { let r = rt.run(); marker("#END"); r } Err(e) => { marker("#END"); Err(e) } };
                        let stop = flags & 4 == 0 && matches!(r, Err(RuntimeError::CheckpointRequested));
                        c.finish(r);
                        if stop { break; }
                    }
                    Err(_) => c.out.write_all(&[3, 0]).unwrap(),
                }
            }
            4 => {
                let (ix, start, len) = (rd.u8(), rd.u32() as usize, rd.u32() as usize);
                let d = c.inst.as_ref().unwrap().mem_addrs[ix as usize].get_data();
                let mut o = ((d.len() / 65536) as u32).to_le_bytes().to_vec();
                if start + len <= d.len() { o.extend_from_slice(&d[start..start + len]); } else { o.resize(4 + len, 0xEE); }
                c.out.write_all(&o).unwrap();
            }
            5 => {
                let gs = c.inst.as_ref().unwrap().global_addrs.clone();
                let mut o = vec![gs.len() as u8];
                for g in &gs { let v = g.get(); o.extend_from_slice(&c.encode(&v)); }
                c.out.write_all(&o).unwrap();
            }
            6 => {
                let ix = rd.u8();
                let t = c.inst.as_ref().unwrap().table_addrs[ix as usize].clone();
                let n = t.read_lock().elem.len();
                let mut o = (n as u32).to_le_bytes().to_vec();
                for i in 0..n { let v = t.get(i); o.extend_from_slice(&c.encode(&v)[1..5]); }
                c.out.write_all(&o).unwrap();
            }
            7 => {
                let flags = rd.u8();
                let inst = c.inst.clone().unwrap();
                marker("#RESTORE");
                match migration::restore(Rc::clone(&inst), "checkpoint.bin") {
                    Ok(stacks) => {
                        let mut rt = Runtime::new_restored(inst, stacks, flags & 2 != 0, flags & 1 != 0, #[cfg(feature = "trace")] (flags & 8 != 0).then(|| chiwawa::execution::trace::TraceConfig::new(None, None, None)));
                        marker("#RUN");
                        let r = rt.run();
                        marker("#END");
                        let stop = flags & 4 == 0 && matches!(r, Err(RuntimeError::CheckpointRequested));
                        c.finish(r);
                        if stop { break; }
                    }
                    Err(_) => { c.out.write_all(&[4, 0]).unwrap(); break; }
                }
            }
            9 => { let k = rd.u8(); c.inst = Some(c.insts[k as usize].clone()); }
            8 => { let n = rd.str(); marker(&n); }
            10 => unsafe { BASE = LIVE; PEAK = LIVE; },
            11 => { let n = unsafe { PEAK.wrapping_sub(BASE) }; c.out.write_all(&n.to_le_bytes()).unwrap(); }
            _ => panic!("bad script"),
        }
    }
    marker("#DONE");
}
