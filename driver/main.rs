// MIR dump driver.  Runs as RUSTC_WORKSPACE_WRAPPER for the (empty) client
// crate, and writes every function body of the svd crates (monomorphic,
// callees resolved) plus the small part of core we inline, as JSON lines.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_ast_pretty;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{CrateNum, DefId, DefIndex};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_span::{sym, Span};
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String { format!("[{}]", v.join(",")) }

const PROJECT: [&str; 4] = ["svd_rs", "svd_parser", "svd_encoder", "svd_client"];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<Option<String>>,
    ty_queue: VecDeque<Ty<'tcx>>,
    seen: HashMap<String, ()>,
    queue: VecDeque<(String, Body<'tcx>, BodyInfo)>,
    inst_keys: HashMap<Instance<'tcx>, String>,
    out: std::io::BufWriter<std::fs::File>,
    const_seen: HashSet<String>,
}
#[derive(Clone)]
struct BodyInfo { name: String, krate: String, args: Vec<usize>, kind: &'static str, derived: bool, public: bool, trait_item: String }

/// callable from outside its crate: a public method, or a public function in public modules
fn is_public(tcx: TyCtxt<'_>, did: DefId) -> bool {
    match tcx.def_kind(did) {
        DefKind::AssocFn => tcx.visibility(did).is_public(),
        DefKind::Fn => {
            let mut d = did;
            loop {
                if tcx.def_kind(d) == DefKind::Mod && d.is_crate_root() { return true; }
                if !tcx.visibility(d).is_public() { return false; }
                match tcx.opt_parent(d) { Some(p) => d = p, None => return true }
                if tcx.def_kind(d) != DefKind::Mod { return false; }
            }
        }
        _ => false,
    }
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(None);
        self.ty_queue.push_back(t);
        i
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }
    fn flush_tys(&mut self) {
        while let Some(t) = self.ty_queue.pop_front() {
            let i = self.tys[&t];
            let s = self.ty_json(t);
            self.ty_out[i] = Some(s);
        }
    }
    fn args_ty(&mut self, args: GenericArgsRef<'tcx>) -> Vec<usize> {
        args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t)).collect()
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let disp = esc(&format!("{}", t));
        let body = match t.kind() {
            ty::Adt(def, args) => {
                let mut vs = vec![];
                // the layouts of foreign types are opaque to the analysis, except for
                // enums and simple core types
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    let kr = tcx.crate_name(def.did().krate).to_string();
                    let deep = PROJECT.contains(&kr.as_str()) || def.is_enum() || kr == "core" || kr == "xmltree" || kr == "roxmltree";
                    for f in v.fields.iter() {
                        let ft = if deep { let ft = self.norm(f.ty(tcx, args).skip_normalization()); self.ty(ft) as i64 } else { -1 };
                        fs.push(format!("[{},{}]", esc(f.name.as_str()), ft));
                    }
                    let d = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                    vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":{}}}", esc(v.name.as_str()), d, arr(&fs)));
                }
                let a: Vec<String> = self.args_ty(args).iter().map(|x| x.to_string()).collect();
                // auto traits of the project's own types
                let auto = if PROJECT.contains(&tcx.crate_name(def.did().krate).as_str()) {
                    let (icx, pe) = tcx.infer_ctxt().build_with_typing_env(self.env);
                    let has = |d: Option<DefId>| d.is_some_and(|d| icx.type_implements_trait(d, [t], pe).must_apply_modulo_regions());
                    format!(",\"send\":{},\"sync\":{},\"regions\":{}", has(tcx.get_diagnostic_item(sym::Send)), has(tcx.lang_items().sync_trait()), args.regions().count())
                } else { String::new() };
                format!("\"k\":\"adt\",\"n\":{},\"e\":{},\"a\":{},\"v\":{}{auto}", esc(&tcx.def_path_str(def.did())), def.is_enum(), arr(&a), arr(&vs))
            }
            ty::Ref(_, t, m) => { let i = self.ty(*t); format!("\"k\":\"ref\",\"t\":{},\"m\":{}", i, m.is_mut()) }
            ty::RawPtr(t, m) => { let i = self.ty(*t); format!("\"k\":\"ptr\",\"t\":{},\"m\":{}", i, m.is_mut()) }
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect(); format!("\"k\":\"tuple\",\"a\":{}", arr(&v)) }
            ty::Slice(t) => { let i = self.ty(*t); format!("\"k\":\"slice\",\"t\":{}", i) }
            ty::Array(t, n) => { let i = self.ty(*t); format!("\"k\":\"array\",\"t\":{},\"len\":{}", i, n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1)) }
            ty::Closure(d, args) => {
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let env = self.env;
                let inst = Instance::try_resolve(tcx, env, *d, args).ok().flatten();
                let key = match inst { Some(i) => self.inst(i), None => String::new() };
                format!("\"k\":\"closure\",\"n\":{},\"up\":{},\"key\":{}", esc(&tcx.def_path_str(*d)), arr(&up), esc(&key))
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                let callee = self.callee(*d, args);
                format!("\"k\":\"fndef\",\"c\":{}", callee)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Param(_) => "\"k\":\"param\"".into(),
            ty::Int(_) => format!("\"k\":\"int\",\"bits\":{}", t.primitive_size(tcx).bits()),
            ty::Uint(_) => format!("\"k\":\"uint\",\"bits\":{}", t.primitive_size(tcx).bits()),
            ty::Bool => "\"k\":\"bool\"".into(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Float(_) => "\"k\":\"float\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{\"rec\":\"ty\",\"id\":{},\"s\":{},{}}}", self.tys[&t], disp, body)
    }
    /// key of a resolved instance; enqueues its body when it is one we dump
    fn inst(&mut self, i: Instance<'tcx>) -> String {
        if let Some(k) = self.inst_keys.get(&i) { return k.clone(); }
        let tcx = self.tcx;
        let did = i.def_id();
        let kname = tcx.crate_name(did.krate).to_string();
        let mut key = format!("{}::{}", kname, tcx.def_path(did).to_string_no_crate_verbose());
        key.push_str(&format!("{:?}", i.args.iter().filter_map(|a| a.as_type()).map(|t| t.to_string()).collect::<Vec<_>>()));
        let shim = match i.def {
            InstanceKind::Item(_) => "",
            _ => "#shim",
        };
        key.push_str(shim);
        self.inst_keys.insert(i, key.clone());
        let path = tcx.def_path_str(did);
        let std_ok = ["core", "std", "alloc"].contains(&kname.as_str()) && {
            let p = tcx.def_path(did).to_string_no_crate_verbose();
            let p = p.trim_start_matches(':');
            ["option::", "result::", "bool::", "ops::control_flow", "ops::function", "ops::try_trait", "convert::", "tuple", "cmp::Ordering", "iter::traits::iterator::Iterator::try_f"].iter().any(|x| p.starts_with(x))
        };
        let want = PROJECT.contains(&kname.as_str()) || std_ok;
        if want && !i.args.has_non_region_param() {
            let avail = match i.def {
                InstanceKind::Item(d) => tcx.is_mir_available(d) && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)),
                _ => false,
            };
            if avail {
                let derived = tcx.impl_of_assoc(did).map(|d| tcx.is_automatically_derived(d)).unwrap_or(false);
                let skip = derived && kname != "core" && (path.contains("Serialize") || path.contains("_serde") || path.contains("Deserialize"));
                let skip = skip || tcx.def_path(did).to_string_no_crate_verbose().contains("_::");
                // named by the client on purpose: at its own serializer or deserializer
                let ours = i.args.iter().filter_map(|a| a.as_type()).any(|t| { let s = format!("{}", t); s.contains("serial::S") || s.contains("serial::D") });
                let skip = skip && !ours;
                if !skip {
                    let b = tcx.instance_mir(i.def);
                    let body = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, b.clone()));
                    let args = self.args_ty(i.args);
                    let trait_item = tcx.trait_item_of(did).map(|d| tcx.def_path_str(d)).unwrap_or_default();
                    let info = BodyInfo { name: path, krate: kname, args, kind: "fn", derived, public: is_public(tcx, did), trait_item };
                    self.queue.push_back((key.clone(), body, info));
                }
            }
        }
        key
    }
    /// resolved callee descriptor
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let kr = tcx.crate_name(d.krate).to_string();
        let decl = tcx.def_path_str(d);
        let targs: Vec<String> = self.args_ty(args).iter().map(|x| x.to_string()).collect();
        let res = if args.has_non_region_param() { None } else { Instance::try_resolve(tcx, self.env, d, args).ok().flatten() };
        let (key, rname, kind) = match res {
            Some(i) => {
                let k = self.inst(i);
                let kind = match i.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    o => match format!("{:?}", o) { s if s.contains("ClosureOnce") => "once_shim", s if s.contains("FnPtr") => "fnptr_shim", s if s.contains("Clone") => "clone_shim", s if s.contains("Drop") => "drop", _ => "othershim" },
                };
                (k, tcx.def_path_str(i.def_id()), kind)
            }
            None => (String::new(), decl.clone(), "unresolved"),
        };
        // Constructors as functions
        let ctor = match tcx.def_kind(d) {
            DefKind::Ctor(..) => {
                let parent = tcx.parent(d);
                match tcx.def_kind(parent) {
                    DefKind::Variant => {
                        let adt = tcx.adt_def(tcx.parent(parent));
                        adt.variant_index_with_ctor_id(d).as_u32() as i64
                    }
                    _ => 0,
                }
            }
            _ => -1,
        };
        let assoc_self = if ctor >= 0 {
            let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_normalization();
            let out = self.norm(tcx.instantiate_bound_regions_with_erased(sig).output());
            self.ty(out) as i64
        } else { -1 };
        format!("{{\"d\":{},\"k\":{},\"n\":{},\"kind\":\"{}\",\"a\":{},\"cr\":{},\"ctor\":{},\"cty\":{}}}", esc(&decl), esc(&key), esc(&rname), kind, arr(&targs), esc(&kr), ctor, assoc_self)
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => format!("{}", r.local_path().map(|p| p.display().to_string()).unwrap_or_default()),
            _ => String::new(),
        };
        format!("{}:{}", f, lo.line)
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_u32(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_u32()),
                _ => "\"o\"".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_u32(), arr(&v))
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        // promoted / named constant: refer to its body
        if let Const::Unevaluated(uv, _) = c.const_ {
            let key = {
                let d = tcx.def_path(uv.def).to_string_no_crate_verbose();
                format!("{}::{}{:?}#{:?}", tcx.crate_name(uv.def.krate), d, uv.args.iter().filter_map(|a| a.as_type()).map(|t| t.to_string()).collect::<Vec<_>>(), uv.promoted)
            };
            let kr = tcx.crate_name(uv.def.krate).to_string();
            // scalars first
            if let Some(s) = self.scalar_const(&c.const_, t) { return format!("{{\"ty\":{},\"v\":{},\"nm\":{}}}", tid, s, esc(&tcx.def_path_str(uv.def))); }
            let can = uv.promoted.is_some() || PROJECT.contains(&kr.as_str());
            if can && !uv.args.has_non_region_param() {
                if self.const_seen.insert(key.clone()) {
                    let b = match uv.promoted {
                        Some(p) => Some(tcx.promoted_mir(uv.def)[p].clone()),
                        None => {
                            // resolve trait consts
                            match Instance::try_resolve(tcx, self.env, uv.def, uv.args) {
                                Ok(Some(i)) if (i.def_id().is_local() || tcx.is_mir_available(i.def_id()) || matches!(tcx.def_kind(i.def_id()), DefKind::Const{..} | DefKind::AssocConst{..})) => Some(tcx.mir_for_ctfe(i.def_id()).clone()),
                                _ => None,
                            }
                        }
                    };
                    if let Some(b) = b {
                        let body = if uv.promoted.is_some() {
                            tcx.instantiate_and_normalize_erasing_regions(uv.args, self.env, EarlyBinder::bind(tcx, b))
                        } else {
                            let i = Instance::try_resolve(tcx, self.env, uv.def, uv.args).unwrap().unwrap();
                            tcx.instantiate_and_normalize_erasing_regions(i.args, self.env, EarlyBinder::bind(tcx, b))
                        };
                        let info = BodyInfo { name: tcx.def_path_str(uv.def), krate: kr, args: vec![], kind: "const", derived: false, public: false, trait_item: String::new() };
                        self.queue.push_back((key.clone(), body, info));
                    }
                }
                return format!("{{\"ty\":{},\"cbody\":{},\"nm\":{}}}", tid, esc(&key), esc(&tcx.def_path_str(uv.def)));
            }
            return format!("{{\"ty\":{},\"cname\":{}}}", tid, esc(&key));
        }
        if let Some(s) = self.scalar_const(&c.const_, t) { return format!("{{\"ty\":{},\"v\":{}}}", tid, s); }
        if let Some(d) = c.check_static_ptr(tcx) {
            return format!("{{\"ty\":{},\"static\":{}}}", tid, esc(&tcx.def_path_str(d)));
        }
        format!("{{\"ty\":{},\"opaque\":{}}}", tid, esc(&format!("{}", c.const_)))
    }
    fn scalar_const(&mut self, c: &Const<'tcx>, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        match t.kind() {
            ty::Int(_) => { let b = c.try_eval_bits(tcx, self.env)?; let sz = t.primitive_size(tcx); Some(format!("\"i{}\"", sz.sign_extend(b))) }
            ty::Uint(_) => { let b = c.try_eval_bits(tcx, self.env)?; Some(format!("\"i{}\"", b)) }
            ty::Bool => { let b = c.try_eval_bits(tcx, self.env)?; Some(format!("\"b{}\"", b)) }
            ty::Char => { let b = c.try_eval_bits(tcx, self.env)?; Some(esc(&format!("c{}", char::from_u32(b as u32)?))) }
            ty::FnDef(..) => Some("\"f\"".into()),
            ty::Closure(_, a) if a.as_closure().upvar_tys().is_empty() => Some("\"z\"".into()),
            ty::Tuple(ts) if ts.is_empty() => Some("\"u\"".into()),
            ty::Ref(_, inner, _) if inner.is_str() => {
                let v = c.eval(tcx, self.env, rustc_span::DUMMY_SP).ok()?;
                let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                Some(esc(&format!("s{}", std::str::from_utf8(b).ok()?)))
            }
            ty::Ref(_, inner, _) => {
                // &[u8; N] / &[u8]
                let v = c.eval(tcx, self.env, rustc_span::DUMMY_SP).ok()?;
                match inner.kind() {
                    ty::Slice(e) if *e == tcx.types.u8 => {
                        let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                        Some(format!("{{\"bytes\":[{}]}}", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
                    }
                    ty::Array(e, n) if *e == tcx.types.u8 => {
                        let n = n.try_to_target_usize(tcx)?;
                        let sc = match v { mir::ConstValue::Scalar(s) => s, _ => return None };
                        let (prov, off) = sc.to_pointer(&tcx).into_pointer_or_addr().ok()?.prov_and_relative_offset();
                        let al = match tcx.global_alloc(prov.alloc_id()) { mir::interpret::GlobalAlloc::Memory(m) => m, _ => return None };
                        let b = al.inner().inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..off.bytes_usize() + n as usize).to_vec();
                        Some(format!("{{\"bytes\":[{}]}}", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
                    }
                    _ => None,
                }
            }
            ty::Adt(def, args) => {
                // structural constant values
                let v = c.eval(tcx, self.env, rustc_span::DUMMY_SP).ok()?;
                if def.is_struct() && def.non_enum_variant().fields.is_empty() { return Some(format!("{{\"var\":0,\"fs\":[]}}")); }
                let _ = args;
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let mut fs = vec![];
                for (fv, ft) in d.fields.iter() {
                    let cc = Const::Val(*fv, *ft);
                    let s = self.scalar_const(&cc, *ft)?;
                    let ti = self.ty(*ft);
                    fs.push(format!("{{\"ty\":{},\"v\":{}}}", ti, s));
                }
                Some(format!("{{\"var\":{},\"fs\":{}}}", d.variant.map(|v| v.as_u32()).unwrap_or(0), arr(&fs)))
            }
            _ => None,
        }
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"C\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"M\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"K\",{}]", self.constant(c)),
            #[allow(unreachable_patterns)]
            o => format!("[\"R\",{}]", esc(&format!("{:?}", o))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), self.ty(*t)),
            Rvalue::BinaryOp(op, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(&b.0), self.operand(&b.1)),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let t = self.norm(self.tcx.type_of(*d).instantiate(self.tcx, args).skip_normalization());
                        format!("[\"adt\",{},{},{}]", self.ty(t), v.as_u32(), active.map(|x| x.as_u32() as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", ks, arr(&os))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"C\",{}]]", self.place(p)),
            r => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn body(&mut self, key: &str, b: &Body<'tcx>, info: &BodyInfo) {
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value { if p.projection.is_empty() { names.push(format!("[{},{}]", p.local.as_u32(), esc(v.name.as_str()))); } }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => { let p = self.place(&a.0); let r = self.rvalue(&a.1); st.push(format!("[\"=\",{},{},{}]", p, r, esc(&self.span(s.source_info.span)))); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(format!("[\"sd\",{},{}]", p, variant_index.as_u32())); }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr);
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let ti = self.ty(dt);
                    let v: Vec<String> = targets.iter().map(|(v, b)| {
                        let v = if let ty::Int(_) = dt.kind() { dt.primitive_size(self.tcx).sign_extend(v).to_string() } else { v.to_string() };
                        format!("[\"{}\",{}]", v, b.as_u32()) }).collect();
                    format!("[\"switch\",{},{},{},{}]", o, ti, arr(&v), targets.otherwise().as_u32())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { target, place, .. } => { let p = self.place(place); format!("[\"drop\",{},{}]", p, target.as_u32()) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let d = self.place(destination);
                    let tg = target.map(|t| t.as_u32() as i64).unwrap_or(-1);
                    let f = self.operand(func);
                    format!("[\"call\",{},{},{},{}]", f, arr(&a), d, tg)
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.operand(cond);
                    let m = match &**msg { AssertKind::BoundsCheck { .. } => "bounds".to_string(), AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op), AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(), AssertKind::DivisionByZero(_) => "div0".into(), AssertKind::RemainderByZero(_) => "rem0".into(), o => format!("{:?}", o) };
                    let extra = match &**msg {
                        AssertKind::BoundsCheck { len, index } => { let a = self.operand(len); let b = self.operand(index); format!("[{},{}]", a, b) }
                        AssertKind::Overflow(_, a, b) => { let a = self.operand(a); let b = self.operand(b); format!("[{},{}]", a, b) }
                        _ => "[]".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", c, expected, target.as_u32(), esc(&m), extra)
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                o => format!("[\"other\",{}]", esc(&format!("{:?}", o))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"sp\":{},\"cl\":{}}}", arr(&st), tj, sp, bb.is_cleanup));
        }
        let sp = self.span(b.span);
        let args: Vec<String> = info.args.iter().map(|x| x.to_string()).collect();
        let line = format!("{{\"rec\":\"fn\",\"key\":{},\"name\":{},\"cr\":{},\"kind\":\"{}\",\"derived\":{},\"pub\":{},\"ti\":{},\"args\":{},\"argc\":{},\"locals\":{},\"names\":{},\"sp\":{},\"b\":{}}}",
            esc(key), esc(&info.name), esc(&info.krate), info.kind, info.derived, info.public, esc(&info.trait_item), arr(&args), b.arg_count, arr(&locals), arr(&names), esc(&sp), arr(&blocks));
        writeln!(self.out, "{}", line).unwrap();
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) {
    let Ok(out) = std::env::var("SVD_DUMP") else { return };
    if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() != "svd_client" { return; }
    let f = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
    let mut cx = Cx { tcx, env: TypingEnv::fully_monomorphized(), tys: HashMap::new(), ty_out: vec![], ty_queue: VecDeque::new(), seen: HashMap::new(), queue: VecDeque::new(), inst_keys: HashMap::new(), out: f, const_seen: HashSet::new() };
    let _ = &cx.seen;
    let mut roots = 0usize;
    let mut generic: Vec<String> = vec![];
    let mut add = |cx: &mut Cx<'tcx>, d: DefId| {
        let kind = tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) { return; }
        let g = tcx.generics_of(d);
        if !tcx.is_mir_available(d) { return; }
        if g.requires_monomorphization(tcx) {
            generic.push(format!("{}::{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose()));
            return;
        }
        let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => unreachable!(),
        });
        if let Ok(Some(i)) = Instance::try_resolve(tcx, cx.env, d, args) { roots += 1; let k = cx.inst(i); writeln!(cx.out, "{{\"rec\":\"root\",\"key\":{}}}", esc(&k)).unwrap(); }
    };
    for &c in tcx.crates(()).iter() {
        let n = tcx.crate_name(c).to_string();
        if !PROJECT.contains(&n.as_str()) { continue; }
        let num = tcx.num_extern_def_ids(c);
        for i in 0..num {
            let d = DefId { krate: CrateNum::from(c), index: DefIndex::from_usize(i) };
            add(&mut cx, d);
        }
        // impl table and type aliases of interest
        for i in 0..num {
            let d = DefId { krate: c, index: DefIndex::from_usize(i) };
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) && tcx.generics_of(d).own_params.iter().all(|p| matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
                let t = tcx.type_of(d).instantiate_identity().skip_normalization();
                let t = tcx.erase_and_anonymize_regions(t);
                cx.ty(t);
            }
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) && !tcx.def_path(d).to_string_no_crate_verbose().contains("_::") {
                let at = |d: DefId| -> String {
                    let mut v = vec![];
                    #[allow(deprecated)] for a in tcx.get_all_attrs(d) {
                        if let rustc_attr_ir::Attribute::DeriveHelper(it) = a {
                            let p: Vec<String> = it.path.segments.iter().map(|x| x.to_string()).collect();
                            if p.join("::") != "serde" { continue; }
                            if let rustc_attr_ir::AttrArgs::Delimited(da) = &it.args { v.push(esc(&rustc_ast_pretty::pprust::tts_to_string(&da.tokens))); }
                        }
                    }
                    arr(&v)
                };
                let vs: Vec<String> = tcx.adt_def(d).variants().iter().map(|v| {
                    let fs: Vec<String> = v.fields.iter().map(|f| format!("[{},{},{}]", esc(f.name.as_str()), at(f.did), esc(&format!("{}", tcx.type_of(f.did).instantiate_identity().skip_normalization())))).collect();
                    format!("[{},{},{},{}]", esc(v.name.as_str()), if v.def_id == d { "[]".into() } else { at(v.def_id) }, arr(&fs), v.ctor_kind().map(|k| match k { rustc_hir::def::CtorKind::Fn => 1, _ => 2 }).unwrap_or(0))
                }).collect();
                writeln!(cx.out, "{{\"rec\":\"attrs\",\"n\":{},\"cr\":{},\"sp\":{},\"enum\":{},\"at\":{},\"v\":{},\"pub\":{},\"closed\":{}}}", esc(&tcx.def_path_str(d)), esc(&n), esc(&cx.span(tcx.def_span(d))), tcx.adt_def(d).is_enum(), at(d), arr(&vs),
                    tcx.visibility(d).is_public(), tcx.adt_def(d).is_struct() && (tcx.adt_def(d).non_enum_variant().is_field_list_non_exhaustive() || tcx.adt_def(d).all_fields().any(|f| !f.vis.is_public()))).unwrap();
            }
            if let DefKind::Static { .. } = tcx.def_kind(d) {
                writeln!(cx.out, "{{\"rec\":\"static\",\"n\":{},\"ty\":{},\"cr\":{},\"mut\":{},\"freeze\":{}}}", esc(&tcx.def_path_str(d)), esc(&format!("{}", tcx.type_of(d).instantiate_identity().skip_normalization())), esc(&n),
                    tcx.is_mutable_static(d), tcx.type_of(d).instantiate_identity().skip_normalization().is_freeze(tcx, cx.env)).unwrap();
            }
            if matches!(tcx.def_kind(d), DefKind::Closure) && matches!(tcx.def_kind(tcx.parent(d)), DefKind::Static { .. }) && tcx.is_mir_available(d) {
                let b = tcx.optimized_mir(d);
                let ct = b.local_decls[rustc_middle::mir::Local::from_usize(1)].ty.peel_refs();
                if let ty::Closure(cd, cargs) = ct.kind() {
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, cx.env, *cd, cargs) {
                        let k = cx.inst(i);
                        writeln!(cx.out, "{{\"rec\":\"staticfn\",\"n\":{},\"key\":{}}}", esc(&tcx.def_path_str(tcx.parent(d))), esc(&k)).unwrap();
                    }
                }
            }
            if let DefKind::Impl { .. } = tcx.def_kind(d) {
                let st = tcx.type_of(d).instantiate_identity().skip_normalization();
                let tr = tcx.impl_opt_trait_ref(d).map(|t| format!("{}", t.instantiate_identity().skip_normalization())).unwrap_or_default();
                let derived = tcx.is_automatically_derived(d);
                writeln!(cx.out, "{{\"rec\":\"impl\",\"self\":{},\"trait\":{},\"derived\":{},\"cr\":{}}}", esc(&format!("{}", st)), esc(&tr), derived, esc(&n)).unwrap();
            }
        }
    }
    for d in tcx.hir_crate_items(()).definitions() { add(&mut cx, d.to_def_id()); }
    let mut nb = 0usize;
    loop {
        if let Some((k, b, info)) = cx.queue.pop_front() { nb += 1; cx.body(&k, &b, &info); continue; }
        if !cx.ty_queue.is_empty() { cx.flush_tys(); continue; }
        break;
    }
    let tys: Vec<String> = cx.ty_out.iter().flatten().cloned().collect();
    for t in tys { writeln!(cx.out, "{}", t).unwrap(); }
    for g in &generic { writeln!(cx.out, "{{\"rec\":\"generic\",\"n\":{}}}", esc(g)).unwrap(); }
    writeln!(cx.out, "{{\"rec\":\"end\",\"roots\":{},\"bodies\":{},\"generic\":{}}}", roots, nb, generic.len()).unwrap();
    cx.out.flush().unwrap();
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        rustc_middle::ty::print::with_no_trimmed_paths!(dump(tcx));
        rustc_driver::Compilation::Continue
    }
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
