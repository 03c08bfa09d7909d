//! mirx: a rustc driver that exports the type-checked, resolved MIR of every
//! workspace crate as JSON.  It is injected with RUSTC_WORKSPACE_WRAPPER; the
//! analysis itself lives in /verif/lint (Python).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, interpret::GlobalAlloc, *};
use rustc_middle::ty::{self, print::with_no_trimmed_paths, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::def_id::{DefId, LOCAL_CRATE};

// ---------------------------------------------------------------- mini JSON
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        let mut s = self.tcx.crate_name(d.krate).to_string();
        s.push_str(&self.tcx.def_path(d).to_string_no_crate_verbose());
        s
    }
    fn name(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn line(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        (format!("{}", loc.file.name.prefer_local_unconditionally()), loc.line)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyidx.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tyidx.insert(t, i);
        let disp = with_no_trimmed_paths!(format!("{}", t));
        let body = match t.kind() {
            ty::Adt(def, args) => {
                let id = self.id(def.did());
                if !self.adts.contains_key(&id) {
                    self.adts.insert(id.clone(), String::new());
                    let k = if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    };
                    let vs: Vec<String> = def
                        .variants()
                        .iter_enumerated()
                        .map(|(vi, v)| {
                            let d = if def.is_enum() {
                                def.discriminant_for_variant(self.tcx, vi).val.to_string()
                            } else {
                                "0".into()
                            };
                            format!(
                                "{{\"n\":{},\"d\":{},\"f\":{}}}",
                                js(v.name.as_str()),
                                d,
                                arr(v.fields.iter().map(|f| js(f.name.as_str())))
                            )
                        })
                        .collect();
                    let local = def.did().is_local();
                    // declared field types (identity generics) for workspace-local ADTs
                    let ftys: String = if local {
                        arr(def.variants().iter().map(|v| {
                            arr(v.fields.iter().map(|f| {
                                let ft = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                self.ty(ft).to_string()
                            }).collect::<Vec<_>>())
                        }).collect::<Vec<_>>())
                    } else {
                        "[]".into()
                    };
                    let s = format!(
                        "{{\"k\":{},\"n\":{},\"v\":{},\"ft\":{}}}",
                        js(k),
                        js(&self.name(def.did())),
                        arr(vs),
                        ftys
                    );
                    self.adts.insert(id.clone(), s);
                }
                let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                format!(
                    "\"k\":\"adt\",\"id\":{},\"n\":{},\"a\":{}",
                    js(&id),
                    js(&self.name(def.did())),
                    arr(a)
                )
            }
            ty::Ref(_, t2, m) => format!("\"k\":\"ref\",\"m\":{},\"a\":[{}]", m.is_mut(), self.ty(*t2)),
            ty::RawPtr(t2, _) => format!("\"k\":\"ptr\",\"a\":[{}]", self.ty(*t2)),
            ty::Slice(t2) => format!("\"k\":\"slice\",\"a\":[{}]", self.ty(*t2)),
            ty::Array(t2, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("\"k\":\"array\",\"len\":{},\"a\":[{}]", n, self.ty(*t2))
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":{}", arr(a))
            }
            ty::Closure(d, args) => {
                let up: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"closure\",\"id\":{},\"a\":{}", js(&self.id(*d)), arr(up))
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"fndef\",\"id\":{},\"n\":{},\"a\":{}", js(&self.id(*d)), js(&self.name(*d)), arr(a))
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Dynamic(preds, ..) => {
                let n = preds.principal_def_id().map(|d| self.id(d)).unwrap_or_default();
                format!("\"k\":\"dyn\",\"n\":{}", js(&n))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{},\"i\":{}", js(p.name.as_str()), p.index),
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Str | ty::Float(_) => {
                format!("\"k\":{}", js(&format!("{}", t)))
            }
            ty::Never => "\"k\":\"never\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        self.types[i] = format!("{{{},\"s\":{}}}", body, js(&disp));
        i
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let pr: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Downcast(n, v) => format!(
                    "[\"d\",{},{}]",
                    v.as_usize(),
                    js(&n.map(|s| s.to_string()).unwrap_or_default())
                ),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                _ => "[\"other\"]".to_string(),
            })
            .collect();
        format!("[{},{}]", p.local.as_usize(), arr(pr))
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let mut s = format!("{{\"n\":{},\"id\":{},\"a\":{}", js(&self.name(d)), js(&self.id(d)), arr(a));
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"tr\":{}", js(&self.id(tr)));
        }
        if let DefKind::Ctor(of, _) = self.tcx.def_kind(d) {
            let parent = self.tcx.parent(d);
            let (adt, vi) = match of {
                rustc_hir::def::CtorOf::Struct => (parent, 0),
                rustc_hir::def::CtorOf::Variant => {
                    let e = self.tcx.parent(parent);
                    (e, self.tcx.adt_def(e).variant_index_with_id(parent).as_usize())
                }
            };
            let _ = write!(s, ",\"ctor\":[{},{}]", js(&self.id(adt)), vi);
        }
        let erased = self.tcx.erase_and_anonymize_regions(args);
        if !erased.has_escaping_bound_vars() {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, env, d, erased) {
                let rd = inst.def_id();
                if rd != d {
                    let _ = write!(s, ",\"rid\":{},\"rn\":{}", js(&self.id(rd)), js(&self.name(rd)));
                }
                if let ty::InstanceKind::Virtual(..) = inst.def {
                    s.push_str(",\"virt\":true");
                }
            }
        }
        s.push('}');
        s
    }

    fn alloc_bytes(&self, id: mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                if off + len <= a.len() {
                    Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    fn konst(&mut self, c: &Const<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            return format!("{{\"t\":{},\"fn\":{}}}", ti, self.callee(*d, args.skip_binder(), env));
        }
        match c {
            Const::Unevaluated(uv, _) => {
                let p = uv.promoted.map(|p| p.as_usize() as i64).unwrap_or(-1);
                return format!("{{\"t\":{},\"item\":{},\"p\":{}}}", ti, js(&self.id(uv.def)), p);
            }
            Const::Ty(_, ct) => {
                if let Some(n) = ct.try_to_target_usize(self.tcx) {
                    return format!("{{\"t\":{},\"int\":{}}}", ti, n);
                }
                if let ty::ConstKind::Value(v) = ct.kind() {
                    if let ty::Ref(_, inner, _) = v.ty.kind() {
                        if inner.is_str() {
                            if let Some(b) = v.try_to_raw_bytes(self.tcx) {
                                return format!("{{\"t\":{},\"str\":{}}}", ti, js(&String::from_utf8_lossy(b)));
                            }
                        }
                    }
                    if let Some(i) = v.try_to_leaf() {
                        let sz = i.size();
                        let bits = i.to_bits(sz);
                        if t.is_bool() {
                            return format!("{{\"t\":{},\"bool\":{}}}", ti, bits != 0);
                        }
                        if t.is_char() {
                            let ch = char::from_u32(bits as u32).unwrap_or('\u{fffd}');
                            return format!("{{\"t\":{},\"char\":{}}}", ti, js(&ch.to_string()));
                        }
                        if t.is_integral() {
                            let n = if t.is_signed() { sz.sign_extend(bits).to_string() } else { bits.to_string() };
                            return format!("{{\"t\":{},\"int\":{}}}", ti, n);
                        }
                    }
                }
                return format!("{{\"t\":{},\"unk\":true}}", ti);
            }
            Const::Val(v, _) => {
                match v {
                    ConstValue::ZeroSized => return format!("{{\"t\":{},\"zst\":true}}", ti),
                    ConstValue::Slice { alloc_id, meta } => {
                        if let Some(b) = self.alloc_bytes(*alloc_id, 0, *meta as usize) {
                            if let ty::Ref(_, inner, _) = t.kind() {
                                if inner.is_str() {
                                    return format!(
                                        "{{\"t\":{},\"str\":{}}}",
                                        ti,
                                        js(&String::from_utf8_lossy(&b))
                                    );
                                }
                            }
                            return format!(
                                "{{\"t\":{},\"bytes\":{}}}",
                                ti,
                                arr(b.iter().map(|x| x.to_string()))
                            );
                        }
                    }
                    ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                        let sz = i.size();
                        let bits = i.to_bits(sz);
                        if t.is_bool() {
                            return format!("{{\"t\":{},\"bool\":{}}}", ti, bits != 0);
                        }
                        if t.is_char() {
                            let ch = char::from_u32(bits as u32).unwrap_or('\u{fffd}');
                            return format!("{{\"t\":{},\"char\":{}}}", ti, js(&ch.to_string()));
                        }
                        if t.is_floating_point() {
                            return format!("{{\"t\":{},\"float\":{}}}", ti, js(&format!("{}", c)));
                        }
                        let n = if t.is_signed() { sz.sign_extend(bits).to_string() } else { bits.to_string() };
                        return format!("{{\"t\":{},\"int\":{}}}", ti, n);
                    }
                    ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        if let GlobalAlloc::Static(sd) = self.tcx.global_alloc(prov.alloc_id()) {
                            let m = self.tcx.is_mutable_static(sd);
                            let st = self.tcx.type_of(sd).instantiate_identity().skip_norm_wip();
                            let sti = self.ty(st);
                            return format!("{{\"t\":{},\"static\":{},\"stmut\":{},\"sty\":{}}}", ti, js(&self.id(sd)), m, sti);
                        }
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if let ty::Array(el, n) = inner.kind() {
                                if *el == self.tcx.types.u8 {
                                    let n = n.try_to_target_usize(self.tcx).unwrap_or(0) as usize;
                                    if let Some(b) = self.alloc_bytes(prov.alloc_id(), off.bytes_usize(), n) {
                                        return format!(
                                            "{{\"t\":{},\"bytes\":{}}}",
                                            ti,
                                            arr(b.iter().map(|x| x.to_string()))
                                        );
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        format!("{{\"t\":{},\"unk\":true,\"dbg\":{}}}", ti, js(&with_no_trimmed_paths!(format!("{}", c))))
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_, env)),
            #[allow(unreachable_patterns)]
            _ => "[\"k\",{\"t\":0,\"rtc\":true}]".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, env)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o, env),
                n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1)
            ),
            Rvalue::Ref(_, bk, p) => {
                format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{}]",
                js(&format!("{:?}", k)),
                self.operand(o, env),
                self.ty(*t)
            ),
            Rvalue::BinaryOp(op, b) => format!(
                "[\"bin\",{},{},{}]",
                js(&format!("{:?}", op)),
                self.operand(&b.0, env),
                self.operand(&b.1, env)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("[\"un\",{},{}]", js(&format!("{:?}", op)), self.operand(a, env))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let t = self.tcx.type_of(*d).instantiate_identity().skip_norm_wip();
                        let _ = self.ty(t);
                        format!(
                            "[\"adt\",{},{},{}]",
                            js(&self.id(*d)),
                            v.as_usize(),
                            active.map(|a| a.as_usize() as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", js(&self.id(*d))),
                    _ => "[\"other\"]".to_string(),
                };
                let o: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                format!("[\"agg\",{},{}]", kk, arr(o))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.id(*d))),
            _ => format!("[\"other\",{}]", js(&format!("{:?}", r))),
        }
    }

    fn body(&mut self, id: String, name: String, kind: &str, did: DefId, b: &Body<'tcx>, extra: &str) -> String {
        let env = ty::TypingEnv::post_analysis(self.tcx, did);
        let (file, line) = self.line(b.span);
        let locals: Vec<String> = b.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(format!("\"{}\":{}", p.local.as_usize(), js(v.name.as_str())));
                }
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let l = self.line(s.source_info.span).1;
                        st.push(format!("[{},{},{}]", self.place(&pr.0), self.rvalue(&pr.1, env), l))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[{},[\"setd\",{}],0]", self.place(place), variant_index.as_usize()))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let l = self.line(t.source_info.span).1;
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty_ = discr.ty(&b.local_decls, self.tcx);
                    let tv: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| {
                            let n = if ty_.is_signed() {
                                let sz = self.tcx.layout_of(env.as_query_input(ty_)).unwrap().size;
                                sz.sign_extend(v).to_string()
                            } else {
                                v.to_string()
                            };
                            format!("[{},{}]", n, t.as_usize())
                        })
                        .collect();
                    let tyi = self.ty(ty_);
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(discr, env),
                        arr(tv),
                        targets.otherwise().as_usize(),
                        tyi
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    let ti = self.ty(pt);
                    format!("[\"drop\",{},{},{}]", self.place(place), target.as_usize(), ti)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|o| self.operand(&o.node, env)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        self.operand(func, env),
                        arr(a),
                        self.place(destination),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        l
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![len, index]),
                        AssertKind::Overflow(op, a, c) => (format!("overflow:{:?}", op), vec![a, c]),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".to_string(), vec![a]),
                        AssertKind::DivisionByZero(a) => ("divzero".to_string(), vec![a]),
                        AssertKind::RemainderByZero(a) => ("remzero".to_string(), vec![a]),
                        _ => ("other".to_string(), vec![]),
                    };
                    let o: Vec<String> = ops.into_iter().map(|o| self.operand(o, env)).collect();
                    format!(
                        "[\"assert\",{},{},{},{},{},{}]",
                        self.operand(cond, env),
                        expected,
                        js(&k),
                        arr(o),
                        target.as_usize(),
                        l
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                _ => "[\"other\"]".to_string(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{}}}", arr(st), ts));
        }
        format!(
            "{{\"id\":{},\"name\":{},\"kind\":{},\"file\":{},\"line\":{},\"argc\":{},\"locals\":{},\"names\":{{{}}},{}\"blocks\":{}}}",
            js(&id),
            js(&name),
            js(kind),
            js(&file),
            line,
            b.arg_count,
            arr(locals),
            names.join(","),
            extra,
            arr(blocks)
        )
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, types: vec![], tyidx: HashMap::new(), adts: BTreeMap::new() };
        let mut fns = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let id = cx.id(d);
            let name = cx.name(d);
            let mut extra = String::new();
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let vis = tcx.visibility(d).is_public();
                let _ = write!(extra, "\"pub\":{},", vis);
                let gens: Vec<String> = {
                    let mut v = vec![];
                    let mut g = Some(tcx.generics_of(d));
                    while let Some(gg) = g {
                        let mut own: Vec<String> = gg
                            .own_params
                            .iter()
                            .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                            .map(|p| js(p.name.as_str()))
                            .collect();
                        own.append(&mut v);
                        v = own;
                        g = gg.parent.map(|p| tcx.generics_of(p));
                    }
                    v
                };
                let _ = write!(extra, "\"gen\":{},", arr(gens));
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    let _ = write!(extra, "\"in_trait\":{},", js(&cx.id(tr)));
                }
                if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let sti = cx.ty(st);
                    let _ = write!(extra, "\"impl_self\":{},", sti);
                    if tcx.impl_is_of_trait(im) {
                        let tr = tcx.impl_trait_id(im);
                        let _ = write!(extra, "\"impl_trait\":{},", js(&cx.id(tr)));
                    }
                    let derived = rustc_middle::ty::TyCtxt::is_automatically_derived(tcx, im);
                    let _ = write!(extra, "\"derived\":{},", derived);
                }
            }
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let k = if kind == DefKind::Closure { "closure" } else { "fn" };
                    let b = tcx.optimized_mir(d);
                    let s = cx.body(id.clone(), name.clone(), k, d, b, &extra);
                    fns.push(s);
                }
                DefKind::Const { .. }
                | DefKind::AssocConst { .. }
                | DefKind::AnonConst
                | DefKind::Static { .. } => {
                    let b = tcx.mir_for_ctfe(d);
                    let s = cx.body(id.clone(), name.clone(), "const", d, b, &extra);
                    fns.push(s);
                }
                _ => continue,
            }
            for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
                let s = cx.body(
                    format!("{}#p{}", id, pi.as_usize()),
                    format!("{}#p{}", name, pi.as_usize()),
                    "promoted",
                    d,
                    pb,
                    "",
                );
                fns.push(s);
            }
        }
        // impls of traits (class-hierarchy information)
        let mut impls = vec![];
        for (tr, ims) in tcx.all_local_trait_impls(()).iter() {
            for im in ims {
                let st = tcx.type_of(im.to_def_id()).instantiate_identity().skip_norm_wip();
                let sti = cx.ty(st);
                let ms: Vec<String> = tcx
                    .associated_items(im.to_def_id())
                    .in_definition_order()
                    .filter(|a| matches!(a.kind, ty::AssocKind::Fn { .. }))
                    .map(|a| format!("{}:{}", js(a.name().as_str()), js(&cx.id(a.def_id))))
                    .collect();
                impls.push(format!(
                    "{{\"trait\":{},\"self\":{},\"m\":{{{}}}}}",
                    js(&cx.id(*tr)),
                    sti,
                    ms.join(",")
                ));
            }
        }
        // public re-export reachable paths are not needed; item visibility is on each fn.
        let cn = tcx.crate_name(LOCAL_CRATE).to_string();
        let ct = if tcx.crate_types().iter().any(|t| format!("{:?}", t).contains("Executable")) { "bin" } else { "lib" };
        let adts: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let o = format!(
            "{{\"crate\":{},\"type\":{},\n\"types\":[{}],\n\"adts\":{{{}}},\n\"impls\":{},\n\"fns\":[\n{}\n]}}\n",
            js(&cn),
            js(ct),
            cx.types.join(",\n"),
            adts.join(",\n"),
            arr(impls),
            fns.join(",\n")
        );
        let path = format!("{}/{}-{}.json", self.out, cn, ct);
        std::fs::write(&path, o).expect("mirx: cannot write output");
        Compilation::Continue
    }
}

struct Nop;
impl Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("MIRX_OUT").unwrap_or_default();
    let is_probe = args.iter().any(|a| a == "-vV" || a.starts_with("--print"))
        || !args.iter().any(|a| a == "--crate-name")
        || args.iter().any(|a| a == "___" || a == "build_script_build");
    let code = rustc_driver::catch_with_exit_code(move || {
        if out.is_empty() || is_probe {
            rustc_driver::compiler_entrypoint(&args, &mut Nop);
        } else {
            args.push("-Zmir-opt-level=0".into());
            args.push("--cap-lints=allow".into());
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        }
    });
    let _ = code;
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
