//! mirdump: a rustc driver that dumps, as JSON, the MIR of every function reachable from the
//! contract programs of the crate being compiled.
//!
//! Nothing is rewritten: each body is the MIR rustc built for the code (after instantiating generics
//! under the root's own parameters).  Dropped on purpose, and stated in DESIGN.md: lifetimes, unwind
//! (cleanup) edges, storage markers, user type annotations, debug info.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, interpret::GlobalAlloc, *};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv, Unnormalized};
use rustc_index::IndexVec;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    te: TypingEnv<'tcx>,
    descend: Vec<String>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    keys: HashMap<Instance<'tcx>, String>,
    used: BTreeMap<String, usize>,
    queue: VecDeque<Item<'tcx>>,
    fns: BTreeMap<String, String>,
    reached: Vec<DefId>,
    shims: HashMap<String, (DefId, usize)>,
    locals: Option<IndexVec<Local, LocalDecl<'tcx>>>,
}
enum Item<'tcx> {
    Inst(Instance<'tcx>, String),
    Promoted(DefId, GenericArgsRef<'tcx>, mir::Promoted, String),
    ConstBody(DefId, GenericArgsRef<'tcx>, String),
}

impl<'tcx> Cx<'tcx> {
    fn krate(&self, d: DefId) -> String { self.tcx.crate_name(d.krate).to_string() }
    fn path(&self, d: DefId) -> String {
        use rustc_hir::definitions::DefPathData as D;
        // a path built from definition sites only (no re-exports), impls shown by their self type
        let tcx = self.tcx;
        let dp = tcx.def_path(d);
        let mut cur = d;
        let mut segs: Vec<String> = vec![];
        for data in dp.data.iter().rev() {
            match data.data {
                D::Impl => {
                    if tcx.impl_opt_trait_ref(cur).is_some() {
                        let tr = tcx.impl_trait_ref(cur).instantiate_identity().skip_normalization();
                        let st = self.tystr(tr.self_ty());
                        segs.push(format!("<{} as {}>", st, self.path(tr.def_id)));
                    } else {
                        let st = tcx.type_of(cur).instantiate_identity().skip_normalization();
                        segs.push(self.tyhead(st));
                    }
                    segs.reverse();
                    return segs.join("::");
                }
                D::Closure => segs.push(format!("{{closure#{}}}", data.disambiguator)),
                D::Ctor => segs.push("{ctor}".into()),
                _ => segs.push(data.data.get_opt_name().map(|s| s.to_string()).unwrap_or_else(|| format!("{:?}#{}", data.data, data.disambiguator))),
            }
            cur = match tcx.opt_parent(cur) { Some(p) => p, None => break };
        }
        segs.push(self.krate(d));
        segs.reverse();
        segs.join("::")
    }
    fn tyhead(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            _ => self.tystr(t),
        }
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, args) => {
                let v: Vec<String> = args.iter().filter_map(|g| self.argstr(g)).collect();
                if v.is_empty() { self.path(a.did()) } else { format!("{}<{}>", self.path(a.did()), v.join(",")) }
            }
            ty::Ref(_, t, m) => format!("&{}{}", m.prefix_str(), self.tystr(*t)),
            ty::RawPtr(t, m) => format!("*{}{}", m.prefix_str(), self.tystr(*t)),
            ty::Slice(t) => format!("[{}]", self.tystr(*t)),
            ty::Array(t, n) => format!("[{};{}]", self.tystr(*t), self.cststr(*n)),
            ty::Tuple(ts) => format!("({})", ts.iter().map(|t| self.tystr(t)).collect::<Vec<_>>().join(",")),
            ty::FnDef(d, _) => format!("fn#{}", self.path((*d).into())),
            ty::Closure(d, _) => format!("closure#{}", self.path((*d).into())),
            _ => rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", self.tcx.erase_and_anonymize_regions(t))),
        }
    }
    fn cststr(&self, c: ty::Const<'tcx>) -> String {
        if let Some(v) = c.try_to_target_usize(self.tcx) { return v.to_string(); }
        rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", c))
    }
    fn argstr(&self, g: ty::GenericArg<'tcx>) -> Option<String> {
        if let Some(t) = g.as_type() { Some(self.tystr(t)) }
        else if let Some(c) = g.as_const() { Some(self.cststr(c)) }
        else { None }
    }
    fn cst(&mut self, c: ty::Const<'tcx>) -> String {
        match c.kind() {
            ty::ConstKind::Param(p) => format!("{{\"c\":\"param\",\"name\":{}}}", js(p.name.as_str())),
            ty::ConstKind::Value(v) => {
                if let Some(s) = v.try_to_leaf() {
                    let t = self.ty(v.ty);
                    return format!("{{\"c\":\"int\",\"ty\":{},\"v\":\"{}\"}}", t, s.to_bits(s.size()));
                }
                format!("{{\"c\":\"opaque\",\"s\":{}}}", js(&self.cststr(c)))
            }
            _ => format!("{{\"c\":\"opaque\",\"s\":{}}}", js(&self.cststr(c))),
        }
    }
    fn garg(&mut self, g: ty::GenericArg<'tcx>) -> Option<String> {
        if let Some(t) = g.as_type() { let i = self.ty(t); Some(format!("{}", i)) }
        else if let Some(c) = g.as_const() { Some(self.cst(c)) }
        else { None }
    }
    fn gargs(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args.iter().filter_map(|g| self.garg(g)).collect();
        arr(v)
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx.try_normalize_erasing_regions(self.te, Unnormalized::new_wip(t)).unwrap_or(t)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(t);
        if let Some(&i) = self.tymap.get(&t) { return i; }
        let i = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, i);
        let tcx = self.tcx;
        let s = self.tystr(t);
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(it) => format!("\"k\":\"int\",\"signed\":true,\"bits\":{}", it.bit_width().unwrap_or(64)),
            ty::Uint(it) => format!("\"k\":\"int\",\"signed\":false,\"bits\":{}", it.bit_width().unwrap_or(64)),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Adt(a, args) => {
                let gs = self.gargs(args);
                let p = self.path(a.did());
                let kind = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
                let local = self.descends(&p);
                let mut vs = vec![];
                for (vi, v) in a.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = if local { let ft = f.ty(tcx, args).skip_normalization(); format!("{}", self.ty(ft)) } else { "null".into() };
                        fs.push(format!("[{},{}]", js(f.name.as_str()), ft));
                    }
                    let d = if a.is_enum() { a.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                    vs.push(format!("{{\"name\":{},\"discr\":\"{}\",\"fields\":{}}}", js(v.name.as_str()), d, arr(fs)));
                }
                format!("\"k\":\"adt\",\"path\":{},\"args\":{},\"adt\":\"{}\",\"variants\":{}", js(&p), gs, kind, arr(vs))
            }
            ty::Array(e, n) => { let e = self.ty(*e); let n = self.cst(*n); format!("\"k\":\"array\",\"el\":{},\"len\":{}", e, n) }
            ty::Slice(e) => { let e = self.ty(*e); format!("\"k\":\"slice\",\"el\":{}", e) }
            ty::RawPtr(e, _) => { let e = self.ty(*e); format!("\"k\":\"rawptr\",\"to\":{}", e) }
            ty::Ref(_, e, m) => { let e = self.ty(*e); format!("\"k\":\"ref\",\"mut\":{},\"to\":{}", m.is_mut(), e) }
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect(); format!("\"k\":\"tuple\",\"els\":{}", arr(v)) }
            ty::FnDef(d, a) => { let c = self.callee((*d).into(), a.skip_binder()); format!("\"k\":\"fndef\",\"callee\":{}", c) }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Closure(d, a) => {
                let did: DefId = (*d).into();
                let up: Vec<String> = a.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let kind = a.as_closure().kind();
                let inst = Instance { def: InstanceKind::Item(did), args: a };
                let key = self.enqueue(inst);
                format!("\"k\":\"closure\",\"key\":{},\"upvars\":{},\"kind\":\"{:?}\"", js(&key), arr(up), kind)
            }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", js(p.name.as_str())),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[i] = format!("{{\"s\":{},{}}}", js(&s), body);
        i
    }
    fn descends(&self, p: &str) -> bool { self.descend.iter().any(|d| p.starts_with(d.as_str())) }
    fn enqueue(&mut self, inst: Instance<'tcx>) -> String {
        let inst = Instance { def: inst.def, args: self.tcx.erase_and_anonymize_regions(inst.args) };
        if let Some(k) = self.keys.get(&inst) { return k.clone(); }
        let base = self.path(inst.def_id());
        let n = self.used.entry(base.clone()).or_insert(0);
        let key = if *n == 0 { base.clone() } else { format!("{}#{}", base, n) };
        *n += 1;
        self.keys.insert(inst, key.clone());
        self.queue.push_back(Item::Inst(inst, key.clone()));
        key
    }
    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let args = self.tcx.try_normalize_erasing_regions(self.te, Unnormalized::new_wip(tcx.erase_and_anonymize_regions(args))).unwrap_or(args);
        let path = self.path(did);
        let mut o = format!("{{\"path\":{},\"name\":{}", js(&path), js(&tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default()));
        if let Some(tr) = tcx.trait_of_assoc(did) {
            let _ = write!(o, ",\"trait\":{}", js(&self.path(tr)));
        }
        let ga = self.gargs(args);
        let _ = write!(o, ",\"args\":{}", ga);
        // formatting entry points: the implementation the argument will be printed with
        if path.starts_with("core::fmt::rt::Argument::new_") || path == "contracts::ghost::debug" {
            let tr = tcx.param_env(did).caller_bounds().filter_map(|c| c.as_trait_clause()).map(|c| c.def_id()).find(|d| self.path(*d).starts_with("core::fmt::"));
            if let (Some(tr), Some(t)) = (tr, args.types().next()) {
                let f = self.trait_fmt(tr, t);
                let _ = write!(o, ",\"fcallee\":{}", f);
            }
        }
        match tcx.def_kind(did) {
            DefKind::Ctor(_, CtorKind::Fn) => {
                let sig = tcx.fn_sig(did).instantiate(tcx, args).skip_normalization().skip_binder();
                let t = self.ty(sig.output());
                let parent = tcx.parent(did);
                let vi = match sig.output().kind() {
                    ty::Adt(a, _) if a.is_enum() => a.variant_index_with_id(parent).as_usize(),
                    _ => 0,
                };
                let _ = write!(o, ",\"ctor\":[{},{}]}}", t, vi);
                return o;
            }
            _ => {}
        }
        let r = Instance::try_resolve(tcx, self.te, did, args).ok().flatten();
        match r {
            Some(inst) => {
                let rp = self.path(inst.def_id());
                let _ = write!(o, ",\"rpath\":{}", js(&rp));
                match inst.def {
                    InstanceKind::Item(d) => {
                        if let Some(ti) = tcx.trait_item_of(d) { let _ = write!(o, ",\"titem\":{}", js(&self.path(ti))); }
                        if tcx.is_closure_like(d) || (self.descends(&rp) && tcx.is_mir_available(d)) {
                            let key = self.enqueue(inst);
                            let _ = write!(o, ",\"key\":{}", js(&key));
                        } else if path.starts_with("core::iter::traits::") && !path.ends_with("::size_hint") && !path.ends_with("::__iterator_get_unchecked") && tcx.trait_of_assoc(did).is_some() && d != did && tcx.is_mir_available(did) {
                            // an override of a provided iterator method: its meaning is the provided body
                            // (not so for what only an implementation can tell)
                            let key = self.enqueue(Instance { def: InstanceKind::Item(did), args });
                            let _ = write!(o, ",\"dkey\":{}", js(&key));
                        }
                        if let Some((sd, n)) = self.shim(did, &path, args) {
                            let sargs = tcx.mk_args(&args[..n.min(args.len())]);
                            if args.len() >= n && tcx.generics_of(sd).count() == n {
                                let key = self.enqueue(Instance { def: InstanceKind::Item(sd), args: sargs });
                                let _ = write!(o, ",\"skey\":{}", js(&key));
                            }
                        }
                    }
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => { let _ = write!(o, ",\"shim\":\"closure_once\""); }
                    InstanceKind::Shim(_) => { let _ = write!(o, ",\"shim\":\"other\""); }
                    InstanceKind::Intrinsic(_) => { let _ = write!(o, ",\"shim\":\"intrinsic\""); }
                    _ => { let _ = write!(o, ",\"shim\":\"virtual\""); }
                }
            }
            None => { let _ = write!(o, ",\"unresolved\":true"); }
        }
        o.push('}');
        o
    }
    /// the callee `<t as tr>::first method`
    fn trait_fmt(&mut self, tr: DefId, t: Ty<'tcx>) -> String {
        let m = self.tcx.associated_item_def_ids(tr)[0];
        let args = self.tcx.mk_args(&[t.into()]);
        self.callee(m, args)
    }
    /// the definition in contracts::shims that stands for this call, and how many generic arguments it takes
    fn shim(&mut self, did: DefId, path: &str, args: GenericArgsRef<'tcx>) -> Option<(DefId, usize)> {
        let tcx = self.tcx;
        let name = match path {
            "core::iter::traits::iterator::Iterator::collect" => {
                let b = self.ty(args.type_at(1));
                if !self.types[b].contains("alloc::string::String") || self.types[b].contains("alloc::vec::Vec") { "collect_vec" } else {
                    let tr = tcx.trait_of_assoc(did)?;
                    let it = tcx.associated_items(tr).in_definition_order().find(|x| x.name().as_str() == "Item")?.def_id;
                    let t = Ty::new_projection(tcx, ty::IsRigid::No, it, [args.type_at(0)]);
                    let t = tcx.try_normalize_erasing_regions(self.te, Unnormalized::new_wip(t)).ok()?;
                    match t.kind() {
                        ty::Char => "collect_string_char",
                        ty::Ref(..) => "collect_string_str",
                        _ => "collect_string_string",
                    }
                }
            }
            _ => return None,
        };
        self.shims.get(name).copied()
    }
    // ---- constants
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let t = self.norm(t);
        let tid = self.ty(t);
        if depth > 12 { return format!("{{\"c\":\"opaque\",\"ty\":{}}}", tid); }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(s) = self.scalar_of(v, t) { return format!("{{\"c\":\"int\",\"ty\":{},\"v\":\"{}\"}}", tid, s); }
            }
            ty::FnDef(..) | ty::Closure(..) => return format!("{{\"c\":\"zst\",\"ty\":{}}}", tid),
            ty::Ref(_, inner, _) => {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                    if let ConstValue::Slice { .. } | ConstValue::Indirect { .. } = v {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"c\":\"refbytes\",\"ty\":{},\"v\":\"{}\"}}", tid, b.iter().map(|x| format!("{:02x}", x)).collect::<String>());
                        }
                    }
                }
                if let ty::Slice(e) = inner.kind() {
                    // (allocation, offset, length) of the elements
                    let at = match v {
                        ConstValue::Slice { alloc_id, meta } => Some((alloc_id, rustc_abi::Size::ZERO, meta)),
                        ConstValue::Indirect { alloc_id, offset } => self.fat_pointer(alloc_id, offset),
                        _ => None,
                    };
                    if let (Some((id, off, n)), Ok(l)) = (at, tcx.layout_of(self.te.as_query_input(*e))) {
                        if n <= 4096 && (n == 0 || matches!(tcx.global_alloc(id), GlobalAlloc::Memory(_))) {
                            let vs: Vec<String> = (0..n).map(|i| self.cval(ConstValue::Indirect { alloc_id: id, offset: off + l.size * i }, *e, depth + 1)).collect();
                            return format!("{{\"c\":\"ref\",\"ty\":{},\"v\":{{\"c\":\"array\",\"ty\":{},\"v\":{}}}}}", tid, tid, arr(vs));
                        }
                    }
                }
                if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.into_raw_parts();
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Memory(_) => {
                            if inner.is_sized(tcx, self.te) {
                                let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                let s = self.cval(iv, *inner, depth + 1);
                                return format!("{{\"c\":\"ref\",\"ty\":{},\"v\":{}}}", tid, s);
                            }
                        }
                        GlobalAlloc::Static(d) => {
                            let p = self.path(d);
                            return format!("{{\"c\":\"static\",\"ty\":{},\"path\":{}}}", tid, js(&p));
                        }
                        _ => {}
                    }
                }
            }
            ty::Array(e, n) => {
                if let (Some(n), ConstValue::Indirect { alloc_id, offset }) = (n.try_to_target_usize(tcx), v) {
                    if let (Ok(l), GlobalAlloc::Memory(a)) = (tcx.layout_of(self.te.as_query_input(*e)), tcx.global_alloc(alloc_id)) {
                        if *e == tcx.types.u8 {
                            let st = offset.bytes() as usize;
                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + n as usize);
                            return format!("{{\"c\":\"bytes\",\"ty\":{},\"v\":\"{}\"}}", tid, b.iter().map(|x| format!("{:02x}", x)).collect::<String>());
                        }
                        let mut vs = vec![];
                        for i in 0..n {
                            let iv = ConstValue::Indirect { alloc_id, offset: offset + l.size * i };
                            vs.push(self.cval(iv, *e, depth + 1));
                        }
                        return format!("{{\"c\":\"array\",\"ty\":{},\"v\":{}}}", tid, arr(vs));
                    }
                }
                if let (Some(0), _) = (n.try_to_target_usize(tcx), v) { return format!("{{\"c\":\"array\",\"ty\":{},\"v\":[]}}", tid); }
            }
            ty::Tuple(_) | ty::Adt(..) => {
                let adt_ok = match t.kind() { ty::Adt(a, _) => !a.is_union(), _ => true };
                if let (true, Some(d)) = (adt_ok, tcx.try_destructure_mir_constant_for_user_output(v, t)) {
                    let fs: Vec<String> = d.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                    return format!("{{\"c\":\"agg\",\"ty\":{},\"variant\":{},\"fields\":{}}}", tid, d.variant.map(|v| v.as_usize()).unwrap_or(0), arr(fs));
                }
                if let ConstValue::ZeroSized = v { return format!("{{\"c\":\"zst\",\"ty\":{}}}", tid); }
            }
            _ => {}
        }
        format!("{{\"c\":\"opaque\",\"ty\":{}}}", tid)
    }
    /// the slice pointer stored at `offset` of an allocation
    fn fat_pointer(&self, alloc_id: mir::interpret::AllocId, offset: rustc_abi::Size) -> Option<(mir::interpret::AllocId, rustc_abi::Size, u64)> {
        let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) else { return None };
        let a = a.inner();
        let prov = a.provenance().ptrs().iter().find(|(o, _)| *o == offset)?.1;
        let word = |at: u64| {
            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(at as usize..at as usize + 8);
            u64::from_le_bytes(b.try_into().unwrap())
        };
        Some((prov.alloc_id(), rustc_abi::Size::from_bytes(word(offset.bytes())), word(offset.bytes() + 8)))
    }
    fn scalar_of(&self, v: ConstValue, t: Ty<'tcx>) -> Option<u128> {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => Some(i.to_bits(i.size())),
            ConstValue::Indirect { alloc_id, offset } => {
                let l = tcx.layout_of(self.te.as_query_input(t)).ok()?;
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let st = offset.bytes() as usize;
                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + l.size.bytes() as usize);
                    let mut r = 0u128;
                    for (i, x) in b.iter().enumerate() { r |= (*x as u128) << (8 * i); }
                    Some(r)
                } else { None }
            }
            _ => None,
        }
    }
    fn constant(&mut self, c: mir::Const<'tcx>) -> String {
        let tcx = self.tcx;
        match c {
            mir::Const::Val(v, t) => self.cval(v, t, 0),
            mir::Const::Ty(t, ct) => {
                if let ty::ConstKind::Param(p) = ct.kind() {
                    let tid = self.ty(t);
                    return format!("{{\"c\":\"param\",\"ty\":{},\"name\":{}}}", tid, js(p.name.as_str()));
                }
                match ct.kind() {
                    ty::ConstKind::Value(v) => { let cv = tcx.valtree_to_const_val(v); self.cval(cv, t, 0) }
                    _ => { let tid = self.ty(t); format!("{{\"c\":\"opaque\",\"ty\":{},\"s\":{}}}", tid, js(&self.cststr(ct))) }
                }
            }
            mir::Const::Unevaluated(u, t) => {
                let tid = self.ty(t);
                let path = self.path(u.def);
                let args = tcx.try_normalize_erasing_regions(self.te, Unnormalized::new_wip(tcx.erase_and_anonymize_regions(u.args))).unwrap_or(u.args);
                let mut o = format!("{{\"c\":\"uneval\",\"ty\":{},\"path\":{}", tid, js(&path));
                let generic = args.iter().any(|a| { use rustc_middle::ty::TypeVisitableExt; a.has_param() });
                let uu = mir::UnevaluatedConst { def: u.def, args, promoted: u.promoted };
                let v = if generic { None } else { tcx.const_eval_resolve(self.te, uu, rustc_span::DUMMY_SP).ok() };
                if let Some(v) = v {
                    let s = self.cval(v, t, 0);
                    let _ = write!(o, ",\"v\":{}", s);
                } else if let Some(p) = u.promoted {
                    let k = format!("{}::promoted#{}#{}", path, p.as_usize(), self.fns.len() + self.queue.len());
                    let key = self.fresh(&k);
                    self.queue.push_back(Item::Promoted(u.def, args, p, key.clone()));
                    let _ = write!(o, ",\"body\":{}", js(&key));
                } else if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.te, u.def, args) {
                    let d = inst.def_id();
                    let rp = self.path(d);
                    let _ = write!(o, ",\"rpath\":{}", js(&rp));
                    if self.descends(&rp) && tcx.is_mir_available(d) || self.descends(&rp) && d.is_local() {
                        let key = self.fresh(&format!("const {}", rp));
                        self.queue.push_back(Item::ConstBody(d, inst.args, key.clone()));
                        let _ = write!(o, ",\"body\":{}", js(&key));
                    }
                    let a = self.gargs(args);
                    let _ = write!(o, ",\"args\":{}", a);
                }
                o.push('}');
                o
            }
        }
    }
    fn fresh(&mut self, base: &str) -> String {
        let n = self.used.entry(base.to_string()).or_insert(0);
        let key = if *n == 0 { base.to_string() } else { format!("{}#{}", base, n) };
        *n += 1;
        key
    }
    // ---- bodies
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); format!("[\"field\",{},{}]", f.as_usize(), t) }
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"cindex\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"downcast\",{}]", v.as_usize()),
                _ => "[\"opaque\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(v))
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) | Operand::Move(p) => { let s = self.place(p); format!("{{\"p\":{}}}", s) }
            Operand::Constant(c) => { let s = self.constant(c.const_); format!("{{\"k\":{}}}", s) }
            _ => "{\"rt\":true}".to_string(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => { let s = self.operand(o); format!("[\"use\",{}]", s) }
            Rvalue::Repeat(o, n) => { let s = self.operand(o); let n = self.cst(*n); format!("[\"repeat\",{},{}]", s, n) }
            Rvalue::Ref(_, bk, p) => { let s = self.place(p); format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), s) }
            Rvalue::RawPtr(_, p) => { let s = self.place(p); format!("[\"ref\",true,{}]", s) }
            Rvalue::Reborrow(_, _, p) => { let s = self.place(p); format!("[\"use\",{{\"p\":{}}}]", s) }
            Rvalue::CopyForDeref(p) => { let s = self.place(p); format!("[\"use\",{{\"p\":{}}}]", s) }
            Rvalue::Cast(CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _), o, t)
                if matches!(t.builtin_deref(true).map(|x| x.kind().clone()), Some(ty::Dynamic(..))) => {
                let s = self.operand(o);
                let from = o.ty(self.locals.as_ref().unwrap(), self.tcx).builtin_deref(true);
                let tr = match t.builtin_deref(true).map(|x| x.kind().clone()) { Some(ty::Dynamic(p, ..)) => p.principal_def_id(), _ => None };
                let vt = match (from, tr) {
                    (Some(f), Some(tr)) if self.path(tr).starts_with("core::fmt::") && !matches!(f.kind(), ty::Dynamic(..)) => self.trait_fmt(tr, f),
                    _ => "null".into(),
                };
                let t = self.ty(*t);
                format!("[\"unsize\",{},{},{}]", s, t, vt)
            }
            Rvalue::Cast(k, o, t) => { let s = self.operand(o); let t = self.ty(*t); format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), s, t) }
            Rvalue::BinaryOp(b, ab) => { let x = self.operand(&ab.0); let y = self.operand(&ab.1); format!("[\"bin\",\"{:?}\",{},{}]", b, x, y) }
            Rvalue::UnaryOp(u, o) => { let x = self.operand(o); format!("[\"un\",\"{:?}\",{}]", u, x) }
            Rvalue::Discriminant(p) => { let s = self.place(p); format!("[\"discr\",{}]", s) }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let kind = match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); format!("\"array\",{},0", t) }
                    AggregateKind::Tuple => "\"tuple\",null,0".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), a);
                        let t = self.ty(t);
                        format!("\"adt{}\",{},{}", if f.is_some() { "union" } else { "" }, t, v.as_usize())
                    }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(self.tcx, (*d).into(), a); let t = self.ty(t); format!("\"closure\",{},0", t) }
                    AggregateKind::RawPtr(t, _) => { let t = self.ty(*t); format!("\"rawptr\",{},0", t) }
                    _ => "\"other\",null,0".to_string(),
                };
                format!("[\"agg\",{},{}]", kind, arr(os))
            }
            other => format!("[\"other\",{}]", js(&format!("{:?}", other))),
        }
    }
    fn body(&mut self, b: &Body<'tcx>, meta: String) -> String {
        self.locals = Some(b.local_decls.clone());
        let mut locals = vec![];
        for l in b.local_decls.iter() { locals.push(self.ty(l.ty).to_string()); }
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() { names.push(format!("[{},{}]", p.local.as_usize(), js(v.name.as_str()))); } }
        }
        let sm = self.tcx.sess.source_map();
        let line = |sp: rustc_span::Span| -> String {
            let sp = sp.source_callsite();
            let l = sm.lookup_char_pos(sp.lo());
            format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
        };
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            if bb.is_cleanup { blocks.push("null".to_string()); continue; }
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(a) => { let p = self.place(&a.0); let r = self.rvalue(&a.1); st.push(format!("[{},{}]", p, r)); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(format!("[{},[\"setdiscr\",{}]]", p, variant_index.as_usize())); }
                    StatementKind::Intrinsic(i) => { if let NonDivergingIntrinsic::CopyNonOverlapping(_) = &**i { st.push("[null,[\"other\",\"copy_nonoverlapping\"]]".to_string()); } }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = js(&line(t.source_info.span));
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    format!("[\"switch\",{},{},{},{}]", d, arr(ts), targets.otherwise().as_usize(), dt)
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); format!("[\"drop\",{},{}]", p, target.as_usize()) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func.constant().map(|c| c.const_.ty().kind().clone()) {
                        Some(ty::FnDef(d, a)) => self.callee(d.into(), a.skip_binder()),
                        _ => { let o = self.operand(func); format!("{{\"indirect\":{}}}", o) }
                    };
                    let os: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    let dt = self.ty(dt);
                    format!("[\"call\",{},{},{},{},{}]", f, arr(os), d, target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), dt)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds check".to_string(),
                        AssertKind::Overflow(op, ..) => format!("arithmetic overflow ({:?})", op),
                        AssertKind::OverflowNeg(_) => "arithmetic overflow (Neg)".to_string(),
                        AssertKind::DivisionByZero(_) => "division by zero".to_string(),
                        AssertKind::RemainderByZero(_) => "remainder by zero".to_string(),
                        _ => "other".to_string(),
                    };
                    format!("[\"assert\",{},{},{},{}]", c, expected, js(&m), target.as_usize())
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".to_string(),
                _ => "[\"other\"]".to_string(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"at\":{}}}", arr(st), term, sp));
        }
        let at = js(&line(b.span));
        format!("{{{},\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"at\":{},\"blocks\":{}}}", meta, b.arg_count,
            b.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()), arr(locals), arr(names), at, arr(blocks))
    }
    fn generics(&self, d: DefId) -> Vec<String> {
        let mut v = vec![];
        let g = self.tcx.generics_of(d);
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            match p.kind { ty::GenericParamDefKind::Lifetime => {}, ty::GenericParamDefKind::Type { .. } => v.push(format!("[{},\"type\"]", js(p.name.as_str()))), ty::GenericParamDefKind::Const { .. } => v.push(format!("[{},\"const\"]", js(p.name.as_str()))) }
        }
        v
    }
    fn drain(&mut self) {
        let tcx = self.tcx;
        while let Some(it) = self.queue.pop_front() {
            match it {
                Item::Inst(inst, key) => {
                    let d = inst.def_id();
                    if !tcx.is_mir_available(d) && !d.is_local() { continue; }
                    self.reached.push(d);
                    let b = tcx.instance_mir(inst.def);
                    let b = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.te, EarlyBinder::bind(tcx, b.clone())) { Ok(b) => b, Err(_) => continue };
                    let ga = self.gargs(inst.args);
                    let mut meta = format!("\"path\":{},\"args\":{},\"generics\":{},\"crate\":{}", js(&self.path(d)), ga, arr(self.generics(d)), js(&self.krate(d)));
                    if let Some(ti) = tcx.trait_item_of(d) { let _ = write!(meta, ",\"titem\":{}", js(&self.path(ti))); }
                    let _ = write!(meta, ",\"vis\":{}", matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.visibility(d).is_public());
                    let s = self.body(&b, meta);
                    self.fns.insert(key, s);
                }
                Item::Promoted(d, args, p, key) => {
                    let b = tcx.promoted_mir(d)[p].clone();
                    let inst = Instance::new_raw(d, args);
                    let b = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.te, EarlyBinder::bind(tcx, b)) { Ok(b) => b, Err(_) => continue };
                    let s = self.body(&b, format!("\"path\":{},\"promoted\":true", js(&key)));
                    self.fns.insert(key, s);
                }
                Item::ConstBody(d, args, key) => {
                    let b = tcx.mir_for_ctfe(d).clone();
                    let inst = Instance::new_raw(d, args);
                    let b = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.te, EarlyBinder::bind(tcx, b)) { Ok(b) => b, Err(_) => continue };
                    let s = self.body(&b, format!("\"path\":{},\"promoted\":true", js(&key)));
                    self.fns.insert(key, s);
                }
            }
        }
    }
}

fn dump_root<'tcx>(tcx: TyCtxt<'tcx>, did: DefId, descend: &[String], out: &str) -> Vec<DefId> {
    let te = TypingEnv::post_analysis(tcx, did);
    let mut cx = Cx { tcx, te, descend: descend.to_vec(), types: vec![], tymap: HashMap::new(), keys: HashMap::new(),
        used: BTreeMap::new(), queue: VecDeque::new(), fns: BTreeMap::new(), reached: vec![], shims: HashMap::new(), locals: None };
    // std functions whose meaning is given by a Rust definition in contracts::shims (name: what it stands
    // for, generic arguments in the same order)
    for d in tcx.mir_keys(()) {
        let d = d.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn) { continue; }
        let n = tcx.item_name(d).to_string();
        if !cx.path(d).starts_with("contracts::shims::") { continue; }
        cx.shims.insert(n, (d, tcx.generics_of(d).count()));
    }
    let args = ty::GenericArgs::identity_for_item(tcx, did);
    let root = cx.enqueue(Instance { def: InstanceKind::Item(did), args });
    cx.drain();
    let name = cx.path(did);
    let mut s = String::new();
    let fns: Vec<String> = cx.fns.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let _ = write!(s, "{{\"root\":{},\"types\":{},\"fns\":{{{}}}}}", js(&root), arr(cx.types.clone()), fns.join(",\n"));
    let mut h: u64 = 1469598103934665603;
    for b in name.bytes() { h = (h ^ b as u64).wrapping_mul(1099511628211); }
    let safe: String = name.chars().map(|c| if c.is_alphanumeric() || c == '_' { c } else { '.' }).collect();
    let safe: String = safe.chars().take(120).collect();
    let file = format!("{}/{}.{:08x}.json", out, safe, h as u32);
    std::fs::write(file, s).unwrap();
    cx.reached
}

struct C;
impl Callbacks for C {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        if tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str() != want { return Compilation::Continue; }
        let out = std::env::var("MIRDUMP_OUT").unwrap();
        let descend: Vec<String> = std::env::var("MIRDUMP_DESCEND").unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let targets: Vec<String> = std::env::var("MIRDUMP_TARGETS").unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let mut reached: Vec<DefId> = vec![];
        for d in tcx.mir_keys(()) {
            let did = d.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn) { continue; }
            reached.extend(dump_root(tcx, did, &descend, &out));
        }
        // every function of the crates under verification that some contract program reaches is also
        // dumped once on its own, fully generic, so that its own contract can be checked modularly
        let mut seen = std::collections::HashSet::new();
        for d in reached {
            let c = tcx.crate_name(d.krate).to_string();
            if !targets.contains(&c) || !seen.insert(d) { continue; }
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { continue; }
            dump_root(tcx, d, &descend, &out);
        }
        Compilation::Continue
    }
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    rustc_driver::compiler_entrypoint(&args, &mut C);
}
