//! WebAssembly decoding into a compact, branch-resolved instruction vector.
use crate::term::T;
use std::collections::HashMap;
use wasmparser::{Operator as O, Parser, Payload};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty { I32, I64, F32, F64, FuncRef, ExternRef }
impl Ty {
    pub fn width(self) -> u8 { match self { Ty::I64 | Ty::F64 => 64, _ => 32 } }
    pub fn tag(self) -> u8 { match self { Ty::I32 => 0, Ty::I64 => 1, Ty::F32 => 2, Ty::F64 => 3, Ty::FuncRef => 4, Ty::ExternRef => 5 } }
    pub fn is_ref(self) -> bool { matches!(self, Ty::FuncRef | Ty::ExternRef) }
}
pub fn ty(v: wasmparser::ValType) -> Result<Ty, String> {
    use wasmparser::ValType as W;
    Ok(match v {
        W::I32 => Ty::I32, W::I64 => Ty::I64, W::F32 => Ty::F32, W::F64 => Ty::F64,
        W::Ref(r) if r.is_func_ref() => Ty::FuncRef,
        W::Ref(r) if r.is_extern_ref() => Ty::ExternRef,
        o => return Err(format!("unsupported type {:?}", o)),
    })
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct FTy { pub params: Vec<Ty>, pub results: Vec<Ty> }

#[derive(Clone, Copy, Debug)]
pub struct Br { pub pc: u32, pub h: u32, pub keep: u16 }

#[derive(Clone, Copy, Debug)]
pub enum I {
    Unreachable,
    Br(Br),
    BrIf(Br),
    /// jump when zero (the `if` instruction)
    IfZ(u32),
    Jmp(u32),
    BrTable(u32),
    Return,
    Call(u32),
    CallInd { ty: u32, table: u32 },
    RetCall(u32),
    RetCallInd { ty: u32, table: u32 },
    Drop,
    /// operand width
    Select(u8),
    LGet(u32), LSet(u32), LTee(u32),
    GGet(u32), GSet(u32),
    TGet(u32), TSet(u32), TSize(u32), TGrow(u32), TFill(u32), TCopy(u32, u32), TInit(u32, u32), ElemDrop(u32),
    /// kind = opcode byte (0x28..=0x35); `off`: static offset
    Load { op: u8, off: u32 },
    Store { op: u8, off: u32 },
    /// accesses whose static offset is a symbolic immediate
    LoadS { op: u8, off: T },
    StoreS { op: u8, off: T },
    MemSize(u32), MemGrow(u32), MemInit(u32), DataDrop(u32), MemCopy, MemFill,
    Const(u64),
    ConstS(T),
    Un(u8), Bin(u8), Sat(u8),
    RefNull, RefIsNull, RefFunc(u32),
}

pub struct Func {
    pub ty: u32,
    pub nparams: u32,
    pub nresults: u32,
    pub nlocals: u32, // declared locals (excluding params)
    pub code: Vec<I>,
    pub import: Option<u32>,
    pub is_panic: bool,
    pub size: usize,
}
#[derive(Clone, Debug)]
pub enum Init { Const(u64), Sym(T), Global(u32), RefNull, RefFunc(u32) }
#[derive(Clone, Debug)]
pub struct Data { pub active: Option<(u32, Init)>, pub bytes: Vec<u8>, pub sym: Vec<T> }
#[derive(Clone, Debug)]
pub struct Elem { pub mode: u8 /*0 active 1 passive 2 declared*/, pub table: u32, pub off: Init, pub items: Vec<Init> }

pub struct Import { pub module: String, pub name: String, pub ty: u32 }
pub struct Module {
    pub types: Vec<FTy>,
    pub imports: Vec<Import>,
    pub funcs: Vec<Func>,
    pub names: Vec<String>,
    pub tables: Vec<(u32, Option<u32>)>,
    pub mems: Vec<(u32, Option<u32>)>,
    pub globals: Vec<(Ty, bool, Init)>,
    pub exports: HashMap<String, (u8, u32)>,
    pub elems: Vec<Elem>,
    pub datas: Vec<Data>,
    pub start: Option<u32>,
    pub brtabs: Vec<Vec<Br>>,
    pub code_section_ops: usize,
}

/// Symbolic substitutions applied while decoding: constants and offsets that
/// equal a marker become the symbolic term.
#[derive(Default, Clone)]
pub struct Syms {
    pub consts: HashMap<u64, T>,
    /// symbolic bytes at absolute file offsets
    pub bytes: HashMap<usize, T>,
}

struct Ctl { kind: u8, /*0 block 1 loop 2 if 3 func*/ h: u32, params: Vec<u8>, results: Vec<u8>, start: u32, fix: Vec<(usize, usize)>, else_fix: Option<usize>, unreach: bool, dead: bool }

fn panic_name(n: &str) -> bool {
    const P: &[&str] = &["rust_begin_unwind", "panic_fmt", "panic_nounwind", "handle_alloc_error", "rust_panic", "panicking9panic", "panicking5panic",
        "unwrap_failed", "expect_failed", "panic_bounds_check", "capacity_overflow", "slice_index_fail", "panic_access_error", "panic_const",
        "slice_start_index_len_fail", "slice_end_index_len_fail", "slice_index_order_fail", "panic_already_borrowed", "panic_already_mutably_borrowed",
        "alloc_error_handler", "panic_display", "panic_explicit", "begin_panic"];
    P.iter().any(|p| n.contains(p)) && !n.contains("hook") && !n.contains("drop_in_place") && !n.contains("panic_count")
}

impl Module {
    pub fn decode(bytes: &[u8], syms: &Syms) -> Result<Module, String> {
        let mut m = Module { types: vec![], imports: vec![], funcs: vec![], names: vec![], tables: vec![], mems: vec![], globals: vec![],
            exports: HashMap::new(), elems: vec![], datas: vec![], start: None, brtabs: vec![], code_section_ops: 0 };
        let mut ftypes: Vec<u32> = vec![];
        let mut bodies = vec![];
        let e = |x: wasmparser::BinaryReaderError| x.to_string();
        for p in Parser::new(0).parse_all(bytes) {
            match p.map_err(e)? {
                Payload::TypeSection(s) => for t in s.into_iter_err_on_gc_types() {
                    let t = t.map_err(e)?;
                    let params = t.params().iter().map(|&x| ty(x)).collect::<Result<_, _>>()?;
                    let results = t.results().iter().map(|&x| ty(x)).collect::<Result<_, _>>()?;
                    m.types.push(FTy { params, results });
                },
                Payload::ImportSection(s) => for i in s {
                    let i = i.map_err(e)?;
                    match i.ty {
                        wasmparser::TypeRef::Func(t) => {
                            let ft = &m.types[t as usize];
                            m.funcs.push(Func { ty: t, nparams: ft.params.len() as u32, nresults: ft.results.len() as u32, nlocals: 0, code: vec![], import: Some(m.imports.len() as u32), is_panic: false, size: 0 });
                            m.imports.push(Import { module: i.module.into(), name: i.name.into(), ty: t });
                        }
                        _ => return Err("non-function import".into()),
                    }
                },
                Payload::FunctionSection(s) => for t in s { ftypes.push(t.map_err(e)?) },
                Payload::TableSection(s) => for t in s { let t = t.map_err(e)?; m.tables.push((t.ty.initial as u32, t.ty.maximum.map(|x| x as u32))) },
                Payload::MemorySection(s) => for t in s { let t = t.map_err(e)?; m.mems.push((t.initial as u32, t.maximum.map(|x| x as u32))) },
                Payload::GlobalSection(s) => for g in s {
                    let g = g.map_err(e)?;
                    let i = init(g.init_expr, syms)?;
                    m.globals.push((ty(g.ty.content_type)?, g.ty.mutable, i));
                },
                Payload::ExportSection(s) => for x in s {
                    let x = x.map_err(e)?;
                    let k = match x.kind { wasmparser::ExternalKind::Func => 0, wasmparser::ExternalKind::Table => 1, wasmparser::ExternalKind::Memory => 2, wasmparser::ExternalKind::Global => 3, _ => 9 };
                    m.exports.insert(x.name.to_string(), (k, x.index));
                },
                Payload::StartSection { func, .. } => m.start = Some(func),
                Payload::ElementSection(s) => for x in s {
                    let x = x.map_err(e)?;
                    let (mode, table, off) = match x.kind {
                        wasmparser::ElementKind::Active { table_index, offset_expr } => (0, table_index.unwrap_or(0), init(offset_expr, syms)?),
                        wasmparser::ElementKind::Passive => (1, 0, Init::Const(0)),
                        wasmparser::ElementKind::Declared => (2, 0, Init::Const(0)),
                    };
                    let mut items = vec![];
                    match x.items {
                        wasmparser::ElementItems::Functions(f) => for f in f { items.push(Init::RefFunc(f.map_err(e)?)) },
                        wasmparser::ElementItems::Expressions(_, ex) => for c in ex { items.push(init(c.map_err(e)?, syms)?) },
                    }
                    m.elems.push(Elem { mode, table, off, items });
                },
                Payload::DataSection(s) => for x in s {
                    let x = x.map_err(e)?;
                    let active = match x.kind {
                        wasmparser::DataKind::Active { memory_index, offset_expr } => Some((memory_index, init(offset_expr, syms)?)),
                        wasmparser::DataKind::Passive => None,
                    };
                    let start = x.data.as_ptr() as usize - bytes.as_ptr() as usize;
                    let mut sym = vec![];
                    if (start..start + x.data.len()).any(|p| syms.bytes.contains_key(&p)) {
                        sym = (start..start + x.data.len()).map(|p| syms.bytes.get(&p).copied().unwrap_or(0)).collect();
                    }
                    m.datas.push(Data { active, bytes: x.data.to_vec(), sym });
                },
                Payload::CodeSectionEntry(b) => bodies.push(b),
                Payload::CustomSection(c) if c.name() == "name" => {
                    if let wasmparser::KnownCustom::Name(r) = c.as_known() {
                        for s in r { if let Ok(wasmparser::Name::Function(f)) = s {
                            for n in f { if let Ok(n) = n {
                                let i = n.index as usize;
                                if m.names.len() <= i { m.names.resize(i + 1, String::new()); }
                                m.names[i] = n.name.to_string();
                            } }
                        } }
                    }
                }
                _ => {}
            }
        }
        for (i, t) in ftypes.iter().enumerate() {
            let ft = &m.types[*t as usize];
            let _ = i;
            m.funcs.push(Func { ty: *t, nparams: ft.params.len() as u32, nresults: ft.results.len() as u32, nlocals: 0, code: vec![], import: None, is_panic: false, size: 0 });
        }
        let nimp = m.imports.len();
        for (i, b) in bodies.into_iter().enumerate() { m.body(nimp + i, b, syms)?; }
        for i in 0..m.funcs.len() {
            if let Some(n) = m.names.get(i) { m.funcs[i].is_panic = panic_name(n); }
        }
        Ok(m)
    }
    pub fn name(&self, f: u32) -> String {
        match self.names.get(f as usize) { Some(n) if !n.is_empty() => n.clone(), _ => format!("func{}", f) }
    }
    fn bt(&self, b: wasmparser::BlockType) -> Result<(Vec<u8>, Vec<u8>), String> {
        Ok(match b {
            wasmparser::BlockType::Empty => (vec![], vec![]),
            wasmparser::BlockType::Type(t) => (vec![], vec![ty(t)?.width()]),
            wasmparser::BlockType::FuncType(t) => (self.types[t as usize].params.iter().map(|t| t.width()).collect(), self.types[t as usize].results.iter().map(|t| t.width()).collect()),
        })
    }
    fn body(&mut self, fi: usize, b: wasmparser::FunctionBody, syms: &Syms) -> Result<(), String> {
        let e = |x: wasmparser::BinaryReaderError| x.to_string();
        let mut nl = 0u32;
        for l in b.get_locals_reader().map_err(e)? { let (n, t) = l.map_err(e)?; ty(t)?; nl += n; }
        let ft = self.types[self.funcs[fi].ty as usize].clone();
        let mut code: Vec<I> = vec![];
        let mut ctl = vec![Ctl { kind: 3, h: 0, params: vec![], results: ft.results.iter().map(|t| t.width()).collect(), start: 0, fix: vec![], else_fix: None, unreach: false, dead: false }];
        // operand widths, used to size `select` results
        let mut ts: Vec<u8> = vec![];
        let mut lw: Vec<u8> = ft.params.iter().map(|t| t.width()).collect();
        for l in b.get_locals_reader().map_err(e)? { let (n, t) = l.map_err(e)?; let w = ty(t)?.width(); for _ in 0..n { lw.push(w) } }
        // fix entries: (code index, 0 = inline, n+1 = br table slot packed)
        macro_rules! br { ($d:expr) => {{
            let k = ctl.len() - 1 - $d as usize;
            let c = &ctl[k];
            let keep = if c.kind == 1 { c.params.len() } else { c.results.len() };
            let base = c.h;
            (k, Br { pc: if c.kind == 1 { c.start } else { u32::MAX }, h: base, keep: keep as u16 })
        }} }
        let rd = b.get_operators_reader().map_err(e)?;
        let mut size = 0;
        for op in rd {
            let op = op.map_err(e)?;
            size += 1;
            if ctl.is_empty() { return Err("code after end".into()); }
            let dead = ctl.last().unwrap().unreach;
            if dead {
                match op {
                    O::Block { .. } | O::Loop { .. } | O::If { .. } => {
                        ctl.push(Ctl { kind: 0, h: ts.len() as u32, params: vec![], results: vec![], start: 0, fix: vec![], else_fix: None, unreach: true, dead: true });
                        continue;
                    }
                    O::Else | O::End => {}
                    _ => continue,
                }
            }
            match op {
                O::Unreachable => { code.push(I::Unreachable); ctl.last_mut().unwrap().unreach = true; }
                O::Nop => {}
                O::Block { blockty } | O::Loop { blockty } => {
                    let (p, r) = self.bt(blockty)?;
                    let h = ts.len() as u32;
                    let kind = if matches!(op, O::Loop { .. }) { 1 } else { 0 };
                    ctl.push(Ctl { kind, h: h - p.len() as u32, params: p, results: r, start: code.len() as u32, fix: vec![], else_fix: None, unreach: false, dead: false });
                }
                O::If { blockty } => {
                    let (p, r) = self.bt(blockty)?;
                    ts.pop();
                    let h = ts.len() as u32;
                    ctl.push(Ctl { kind: 2, h: h - p.len() as u32, params: p, results: r, start: 0, fix: vec![], else_fix: Some(code.len()), unreach: false, dead: false });
                    code.push(I::IfZ(0));
                }
                O::Else => {
                    let c = ctl.last_mut().unwrap();
                    if c.dead { continue; }
                    if !c.unreach { c.fix.push((code.len(), 0)); code.push(I::Jmp(0)); }
                    let f = c.else_fix.take().unwrap();
                    code[f] = I::IfZ(code.len() as u32);
                    c.unreach = false;
                    ts.truncate(c.h as usize);
                    ts.extend_from_slice(&c.params);
                }
                O::End => {
                    let c = ctl.pop().unwrap();
                    if c.dead { continue; }
                    let here = code.len() as u32;
                    if let Some(f) = c.else_fix { code[f] = I::IfZ(here); }
                    for (ix, slot) in c.fix {
                        if slot > 0 {
                            if let I::BrTable(t) = code[ix] { self.brtabs[t as usize][slot - 1].pc = here; }
                        } else {
                            match &mut code[ix] { I::Br(b) | I::BrIf(b) => b.pc = here, I::Jmp(p) => *p = here, _ => unreachable!() }
                        }
                    }
                    ts.truncate(c.h as usize);
                    ts.extend_from_slice(&c.results);
                    if ctl.is_empty() { code.push(I::Return); }
                }
                O::Br { relative_depth } => {
                    let (k, b) = br!(relative_depth);
                    if b.pc == u32::MAX { ctl[k].fix.push((code.len(), 0)); }
                    code.push(I::Br(b));
                    ctl.last_mut().unwrap().unreach = true;
                }
                O::BrIf { relative_depth } => {
                    ts.pop();
                    let (k, b) = br!(relative_depth);
                    if b.pc == u32::MAX { ctl[k].fix.push((code.len(), 0)); }
                    code.push(I::BrIf(b));
                }
                O::BrTable { targets } => {
                    ts.pop();
                    let mut v = vec![];
                    let ds: Vec<u32> = targets.targets().collect::<Result<Vec<_>, _>>().map_err(e)?;
                    for d in ds.into_iter().chain(std::iter::once(targets.default())) {
                        let (k, b) = br!(d);
                        v.push(b);
                        if b.pc == u32::MAX { ctl[k].fix.push((code.len(), v.len())); }
                    }
                    code.push(I::BrTable(self.brtabs.len() as u32));
                    self.brtabs.push(v);
                    ctl.last_mut().unwrap().unreach = true;
                }
                O::Return => { code.push(I::Return); ctl.last_mut().unwrap().unreach = true; }
                O::Call { function_index } => {
                    let f = &self.funcs[function_index as usize];
                    ts.truncate(ts.len() - f.nparams as usize);
                    ts.extend(self.types[f.ty as usize].results.iter().map(|t| t.width()));
                    code.push(I::Call(function_index));
                }
                O::CallIndirect { type_index, table_index, .. } => {
                    let t = &self.types[type_index as usize];
                    ts.truncate(ts.len() - 1 - t.params.len());
                    ts.extend(t.results.iter().map(|t| t.width()));
                    code.push(I::CallInd { ty: type_index, table: table_index });
                }
                O::ReturnCall { function_index } => { code.push(I::RetCall(function_index)); ctl.last_mut().unwrap().unreach = true; }
                O::ReturnCallIndirect { type_index, table_index } => { code.push(I::RetCallInd { ty: type_index, table: table_index }); ctl.last_mut().unwrap().unreach = true; }
                O::Drop => { ts.pop(); code.push(I::Drop); }
                O::Select | O::TypedSelect { .. } => { ts.pop(); ts.pop(); code.push(I::Select(*ts.last().unwrap())); }
                O::LocalGet { local_index } => { ts.push(lw[local_index as usize]); code.push(I::LGet(local_index)); }
                O::LocalSet { local_index } => { ts.pop(); code.push(I::LSet(local_index)); }
                O::LocalTee { local_index } => code.push(I::LTee(local_index)),
                O::GlobalGet { global_index } => { ts.push(self.globals[global_index as usize].0.width()); code.push(I::GGet(global_index)); }
                O::GlobalSet { global_index } => { ts.pop(); code.push(I::GSet(global_index)); }
                O::TableGet { table } => code.push(I::TGet(table)),
                O::TableSet { table } => { pop_n(&mut ts, 2); code.push(I::TSet(table)); }
                O::TableSize { table } => { ts.push(32); code.push(I::TSize(table)); }
                O::TableGrow { table } => { ts.pop(); code.push(I::TGrow(table)); }
                O::TableFill { table } => { pop_n(&mut ts, 3); code.push(I::TFill(table)); }
                O::TableCopy { dst_table, src_table } => { pop_n(&mut ts, 3); code.push(I::TCopy(dst_table, src_table)); }
                O::TableInit { elem_index, table } => { pop_n(&mut ts, 3); code.push(I::TInit(elem_index, table)); }
                O::ElemDrop { elem_index } => code.push(I::ElemDrop(elem_index)),
                O::MemorySize { mem, .. } => { ts.push(32); code.push(I::MemSize(mem)); }
                O::MemoryGrow { mem, .. } => code.push(I::MemGrow(mem)),
                O::MemoryInit { data_index, .. } => { pop_n(&mut ts, 3); code.push(I::MemInit(data_index)); }
                O::DataDrop { data_index } => code.push(I::DataDrop(data_index)),
                O::MemoryCopy { .. } => { pop_n(&mut ts, 3); code.push(I::MemCopy); }
                O::MemoryFill { .. } => { pop_n(&mut ts, 3); code.push(I::MemFill); }
                O::I32Const { value } => { ts.push(32); code.push(cst(value as u32 as u64, syms)); }
                O::I64Const { value } => { ts.push(64); code.push(cst(value as u64, syms)); }
                O::F32Const { value } => { ts.push(32); code.push(cst(value.bits() as u64, syms)); }
                O::F64Const { value } => { ts.push(64); code.push(cst(value.bits(), syms)); }
                O::RefNull { .. } => { ts.push(32); code.push(I::RefNull); }
                O::RefIsNull => code.push(I::RefIsNull),
                O::RefFunc { function_index } => { ts.push(32); code.push(I::RefFunc(function_index)); }
                ref other => {
                    if let Some((opc, ma)) = mem_op(other) {
                        if ma.memory != 0 { return Err("multi-memory access".into()); }
                        let st = opc >= 0x36;
                        let sym = syms.consts.get(&ma.offset).copied();
                        if st { pop_n(&mut ts, 2); } else { ts.pop(); ts.push(if matches!(opc, 0x28 | 0x2a | 0x2c..=0x2f) { 32 } else { 64 }); }
                        code.push(match (st, sym) {
                            (false, None) => I::Load { op: opc, off: ma.offset as u32 },
                            (true, None) => I::Store { op: opc, off: ma.offset as u32 },
                            (false, Some(t)) => I::LoadS { op: opc, off: t },
                            (true, Some(t)) => I::StoreS { op: opc, off: t },
                        });
                    } else if let Some((opc, bin)) = num_op(other) {
                        ts.pop();
                        if bin { ts.pop(); code.push(I::Bin(opc)); } else { code.push(I::Un(opc)); }
                        ts.push(res_width(opc));
                    } else if let Some(x) = sat_op(other) {
                        ts.pop();
                        ts.push(if x < 4 { 32 } else { 64 });
                        code.push(I::Sat(x));
                    } else { return Err(format!("unsupported operator {:?}", other)); }
                }
            }
        }
        self.code_section_ops += size;
        let f = &mut self.funcs[fi];
        f.nlocals = nl;
        f.code = code;
        f.size = size;
        Ok(())
    }
}

fn pop_n(ts: &mut Vec<u8>, n: usize) { ts.truncate(ts.len() - n) }
/// Result width of a numeric instruction.
pub fn res_width(op: u8) -> u8 {
    match op {
        0x45..=0x66 => 32,
        0x67..=0x78 | 0x8b..=0x98 | 0xa7..=0xab | 0xb2..=0xb6 | 0xbc | 0xbe | 0xc0 | 0xc1 => 32,
        _ => 64,
    }
}
fn cst(v: u64, s: &Syms) -> I { match s.consts.get(&v) { Some(&t) => I::ConstS(t), None => I::Const(v) } }

fn init(x: wasmparser::ConstExpr, syms: &Syms) -> Result<Init, String> {
    let mut r = x.get_operators_reader();
    let op = r.read().map_err(|x| x.to_string())?;
    let c = |v: u64| match syms.consts.get(&v) { Some(&t) => Init::Sym(t), None => Init::Const(v) };
    Ok(match op {
        O::I32Const { value } => c(value as u32 as u64),
        O::I64Const { value } => c(value as u64),
        O::F32Const { value } => c(value.bits() as u64),
        O::F64Const { value } => c(value.bits()),
        O::GlobalGet { global_index } => Init::Global(global_index),
        O::RefNull { .. } => Init::RefNull,
        O::RefFunc { function_index } => Init::RefFunc(function_index),
        o => return Err(format!("unsupported initialiser {:?}", o)),
    })
}

fn mem_op<'a>(o: &'a O) -> Option<(u8, &'a wasmparser::MemArg)> {
    Some(match o {
        O::I32Load { memarg } => (0x28, memarg), O::I64Load { memarg } => (0x29, memarg), O::F32Load { memarg } => (0x2a, memarg), O::F64Load { memarg } => (0x2b, memarg),
        O::I32Load8S { memarg } => (0x2c, memarg), O::I32Load8U { memarg } => (0x2d, memarg), O::I32Load16S { memarg } => (0x2e, memarg), O::I32Load16U { memarg } => (0x2f, memarg),
        O::I64Load8S { memarg } => (0x30, memarg), O::I64Load8U { memarg } => (0x31, memarg), O::I64Load16S { memarg } => (0x32, memarg), O::I64Load16U { memarg } => (0x33, memarg),
        O::I64Load32S { memarg } => (0x34, memarg), O::I64Load32U { memarg } => (0x35, memarg),
        O::I32Store { memarg } => (0x36, memarg), O::I64Store { memarg } => (0x37, memarg), O::F32Store { memarg } => (0x38, memarg), O::F64Store { memarg } => (0x39, memarg),
        O::I32Store8 { memarg } => (0x3a, memarg), O::I32Store16 { memarg } => (0x3b, memarg), O::I64Store8 { memarg } => (0x3c, memarg), O::I64Store16 { memarg } => (0x3d, memarg), O::I64Store32 { memarg } => (0x3e, memarg),
        _ => return None,
    })
}
fn sat_op(o: &O) -> Option<u8> {
    Some(match o {
        O::I32TruncSatF32S => 0, O::I32TruncSatF32U => 1, O::I32TruncSatF64S => 2, O::I32TruncSatF64U => 3,
        O::I64TruncSatF32S => 4, O::I64TruncSatF32U => 5, O::I64TruncSatF64S => 6, O::I64TruncSatF64U => 7,
        _ => return None,
    })
}
/// (opcode byte, is-binary)
fn num_op(o: &O) -> Option<(u8, bool)> {
    macro_rules! t { ($($n:ident $c:expr, $b:expr;)*) => { match o { $(O::$n => ($c, $b),)* _ => return None } } }
    Some(t! {
        I32Eqz 0x45,false; I32Eq 0x46,true; I32Ne 0x47,true; I32LtS 0x48,true; I32LtU 0x49,true; I32GtS 0x4a,true; I32GtU 0x4b,true; I32LeS 0x4c,true; I32LeU 0x4d,true; I32GeS 0x4e,true; I32GeU 0x4f,true;
        I64Eqz 0x50,false; I64Eq 0x51,true; I64Ne 0x52,true; I64LtS 0x53,true; I64LtU 0x54,true; I64GtS 0x55,true; I64GtU 0x56,true; I64LeS 0x57,true; I64LeU 0x58,true; I64GeS 0x59,true; I64GeU 0x5a,true;
        F32Eq 0x5b,true; F32Ne 0x5c,true; F32Lt 0x5d,true; F32Gt 0x5e,true; F32Le 0x5f,true; F32Ge 0x60,true;
        F64Eq 0x61,true; F64Ne 0x62,true; F64Lt 0x63,true; F64Gt 0x64,true; F64Le 0x65,true; F64Ge 0x66,true;
        I32Clz 0x67,false; I32Ctz 0x68,false; I32Popcnt 0x69,false; I32Add 0x6a,true; I32Sub 0x6b,true; I32Mul 0x6c,true; I32DivS 0x6d,true; I32DivU 0x6e,true; I32RemS 0x6f,true; I32RemU 0x70,true;
        I32And 0x71,true; I32Or 0x72,true; I32Xor 0x73,true; I32Shl 0x74,true; I32ShrS 0x75,true; I32ShrU 0x76,true; I32Rotl 0x77,true; I32Rotr 0x78,true;
        I64Clz 0x79,false; I64Ctz 0x7a,false; I64Popcnt 0x7b,false; I64Add 0x7c,true; I64Sub 0x7d,true; I64Mul 0x7e,true; I64DivS 0x7f,true; I64DivU 0x80,true; I64RemS 0x81,true; I64RemU 0x82,true;
        I64And 0x83,true; I64Or 0x84,true; I64Xor 0x85,true; I64Shl 0x86,true; I64ShrS 0x87,true; I64ShrU 0x88,true; I64Rotl 0x89,true; I64Rotr 0x8a,true;
        F32Abs 0x8b,false; F32Neg 0x8c,false; F32Ceil 0x8d,false; F32Floor 0x8e,false; F32Trunc 0x8f,false; F32Nearest 0x90,false; F32Sqrt 0x91,false; F32Add 0x92,true; F32Sub 0x93,true; F32Mul 0x94,true; F32Div 0x95,true; F32Min 0x96,true; F32Max 0x97,true; F32Copysign 0x98,true;
        F64Abs 0x99,false; F64Neg 0x9a,false; F64Ceil 0x9b,false; F64Floor 0x9c,false; F64Trunc 0x9d,false; F64Nearest 0x9e,false; F64Sqrt 0x9f,false; F64Add 0xa0,true; F64Sub 0xa1,true; F64Mul 0xa2,true; F64Div 0xa3,true; F64Min 0xa4,true; F64Max 0xa5,true; F64Copysign 0xa6,true;
        I32WrapI64 0xa7,false; I32TruncF32S 0xa8,false; I32TruncF32U 0xa9,false; I32TruncF64S 0xaa,false; I32TruncF64U 0xab,false; I64ExtendI32S 0xac,false; I64ExtendI32U 0xad,false;
        I64TruncF32S 0xae,false; I64TruncF32U 0xaf,false; I64TruncF64S 0xb0,false; I64TruncF64U 0xb1,false; F32ConvertI32S 0xb2,false; F32ConvertI32U 0xb3,false; F32ConvertI64S 0xb4,false; F32ConvertI64U 0xb5,false; F32DemoteF64 0xb6,false;
        F64ConvertI32S 0xb7,false; F64ConvertI32U 0xb8,false; F64ConvertI64S 0xb9,false; F64ConvertI64U 0xba,false; F64PromoteF32 0xbb,false;
        I32ReinterpretF32 0xbc,false; I64ReinterpretF64 0xbd,false; F32ReinterpretI32 0xbe,false; F64ReinterpretI64 0xbf,false;
        I32Extend8S 0xc0,false; I32Extend16S 0xc1,false; I64Extend8S 0xc2,false; I64Extend16S 0xc3,false; I64Extend32S 0xc4,false;
    })
}
