use crate::json::J;
use crate::obj;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE, LocalDefId};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::cell::RefCell;
use std::collections::HashMap;

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: RefCell<(HashMap<Ty<'tcx>, usize>, Vec<J>)>,
    adts: RefCell<(std::collections::HashSet<DefId>, Vec<DefId>)>,
}

pub fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    // crate-qualified path made of the names only (impl blocks are handled by `canon`)
    let mut s = tcx.crate_name(d.krate).to_string();
    for seg in tcx.def_path(d).data {
        s.push_str("::");
        match seg.data.get_opt_name() {
            Some(n) => s.push_str(n.as_str()),
            None => s.push_str(&format!("{{{:?}#{}}}", seg.data, seg.disambiguator)),
        }
    }
    s
}

fn ty_head(tcx: TyCtxt<'_>, t: Ty<'_>) -> String {
    match t.kind() {
        ty::Adt(a, _) => path(tcx, a.did()),
        ty::Slice(_) => "slice".into(),
        ty::Array(..) => "array".into(),
        ty::Ref(_, t, _) => format!("&{}", ty_head(tcx, *t)),
        ty::RawPtr(t, _) => {
            let _ = t;
            "ptr".into()
        }
        ty::Param(_) => "param".into(),
        _ => t.to_string(),
    }
}

/// Canonical, refactoring-independent name of a function.
pub fn canon(tcx: TyCtxt<'_>, d: DefId) -> String {
    if tcx.is_closure_like(d) {
        let parent = tcx.parent(d);
        let dis = tcx.def_path(d).data.last().map(|s| s.disambiguator).unwrap_or(0);
        return format!("{}::{{closure#{dis}}}", canon(tcx, parent));
    }
    if let Some(parent) = tcx.opt_parent(d) {
        if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
            let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
            let self_ty = tcx.type_of(parent).skip_binder();
            if of_trait {
                let tr = tcx.impl_trait_ref(parent).skip_binder();
                let mut t = path(tcx, tr.def_id);
                let extra: Vec<String> = tr.args.types().skip(1).map(|t| ty_head(tcx, t)).collect();
                if !extra.is_empty() {
                    t.push_str(&format!("<{}>", extra.join(",")));
                }
                return format!("<{} as {}>::{}", ty_head(tcx, self_ty), t, name);
            }
            return format!("<{}>::{}", ty_head(tcx, self_ty), name);
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Const{..} | DefKind::AssocConst{..} | DefKind::Static{..})
            && matches!(tcx.def_kind(parent), DefKind::Fn | DefKind::AssocFn)
        {
            return format!("{}::{}", canon(tcx, parent), tcx.item_name(d));
        }
    }
    path(tcx, d)
}

fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

/// is d's body in one of our dumps?
fn ours(tcx: TyCtxt<'_>, d: DefId) -> bool {
    d.is_local() || matches!(tcx.crate_name(d.krate).as_str(), "rowan")
}

impl<'tcx> Cx<'tcx> {
    fn ty(&self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tys.borrow().0.get(&t) {
            return J::Num(i as i128);
        }
        let i = {
            let mut b = self.tys.borrow_mut();
            let i = b.1.len();
            b.1.push(J::Null);
            b.0.insert(t, i);
            i
        };
        let s = ty::print::with_no_trimmed_paths!(t.to_string());
        let d = match t.kind() {
            ty::Adt(a, args) => {
                self.note_adt(a.did());
                obj! {"k": "adt", "p": path(self.tcx, a.did()), "a": self.args(args), "s": s}
            }
            ty::Ref(_, t, m) => {
                obj! {"k": "ref", "mut": m.is_mut(), "t": self.ty(*t), "s": s}
            }
            ty::RawPtr(t, m) => obj! {"k": "ptr", "mut": m.is_mut(), "t": self.ty(*t), "s": s},
            ty::Slice(t) => obj! {"k": "slice", "t": self.ty(*t), "s": s},
            ty::Array(t, n) => {
                obj! {"k": "array", "t": self.ty(*t), "n": n.try_to_target_usize(self.tcx).map(|n| n as usize), "s": s}
            }
            ty::Tuple(ts) => {
                obj! {"k": "tuple", "a": ts.iter().map(|t| self.ty(t)).collect::<Vec<_>>(), "s": s}
            }
            ty::Closure(d, args) => {
                let up: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                obj! {"k": "closure", "key": key(self.tcx, *d), "up": up, "s": s}
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().map(|a| self.args(a));
                obj! {"k": "fndef", "p": canon(self.tcx, *d), "a": args, "key": if ours(self.tcx, *d) { Some(key(self.tcx, *d)) } else { None }, "s": s}
            }
            ty::Param(p) => obj! {"k": "param", "n": p.name.as_str(), "s": s},
            ty::Alias(..) => obj! {"k": "alias", "s": s},
            ty::Never => obj! {"k": "never", "s": s},
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => {
                obj! {"k": "prim", "s": s}
            }
            _ => obj! {"k": "other", "s": s},
        };
        self.tys.borrow_mut().1[i] = d;
        J::Num(i as i128)
    }

    fn note_adt(&self, d: DefId) {
        let mut b = self.adts.borrow_mut();
        if b.0.insert(d) {
            b.1.push(d);
        }
    }

    fn args(&self, a: GenericArgsRef<'tcx>) -> J {
        J::Arr(
            a.iter()
                .filter_map(|a| match a.kind() {
                    GenericArgKind::Type(t) => Some(self.ty(t)),
                    GenericArgKind::Const(c) => Some(J::Str(format!("{c}"))),
                    GenericArgKind::Lifetime(_) => None,
                })
                .collect(),
        )
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| format!("{:?}", r)),
            n => format!("{n:?}"),
        };
        J::Str(format!("{}:{}", name, lo.line))
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut proj = vec![];
        for (base, elem) in p.iter_projections() {
            let bt = base.ty(&body.local_decls, self.tcx);
            let j = match elem {
                ProjectionElem::Deref => obj! {"k": "deref"},
                ProjectionElem::Field(f, t) => {
                    let name = match bt.ty.kind() {
                        ty::Adt(a, _) => {
                            self.note_adt(a.did());
                            let v = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            Some(a.variant(v).fields[f].name.to_string())
                        }
                        _ => None,
                    };
                    let adt = match bt.ty.kind() {
                        ty::Adt(a, _) => Some(path(self.tcx, a.did())),
                        _ => None,
                    };
                    obj! {"k": "f", "i": f.as_usize(), "n": name, "t": self.ty(t), "adt": adt}
                }
                ProjectionElem::Downcast(name, v) => {
                    obj! {"k": "d", "v": v.as_usize(), "n": name.map(|s| s.to_string())}
                }
                ProjectionElem::Index(l) => obj! {"k": "i", "l": l.as_usize()},
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    obj! {"k": "ci", "o": offset as usize, "e": from_end, "m": min_length as usize}
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    obj! {"k": "ss", "f": from as usize, "t": to as usize, "e": from_end}
                }
                _ => obj! {"k": "other"},
            };
            proj.push(j);
        }
        let t = p.ty(&body.local_decls, self.tcx).ty;
        if proj.is_empty() {
            obj! {"l": p.local.as_usize(), "t": self.ty(t)}
        } else {
            obj! {"l": p.local.as_usize(), "p": proj, "t": self.ty(t)}
        }
    }

    fn constant(&self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let mut val = J::Null;
        let mut s = J::Null;
        let mut def = J::Null;
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            def = match u.promoted {
                Some(p) => J::Str(format!("{}::promoted#{}", key(self.tcx, u.def), p.as_usize())),
                None if u.def.is_local() => J::Str(key(self.tcx, u.def)),
                None => J::Str(canon(self.tcx, u.def)),
            };
        }
        match t.kind() {
            ty::FnDef(..) => {}
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(b) = c.const_.try_eval_bits(self.tcx, env) {
                    val = J::Num(b as i128);
                }
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Ok(cv) = c.const_.eval(self.tcx, env, c.span) {
                    if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        s = J::Str(String::from_utf8_lossy(b).to_string());
                    }
                }
            }
            ty::Ref(_, inner, _) if matches!(inner.kind(), ty::Array(e, _) if *e == self.tcx.types.u8) => {
                if let Ok(mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _))) = c.const_.eval(self.tcx, env, c.span) {
                    let (prov, off) = p.prov_and_relative_offset();
                    if let mir::interpret::GlobalAlloc::Memory(m) = self.tcx.global_alloc(prov.alloc_id()) {
                        let a = m.inner();
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..a.len());
                        s = J::Str(format!("bytes:{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()));
                    }
                }
            }
            _ => {
                if let Some(sc) = c.const_.try_eval_scalar_int(self.tcx, env) {
                    val = J::Str(format!("{sc:?}"));
                }
            }
        }
        obj! {"k": "const", "t": self.ty(t), "v": val, "s": s, "def": def}
    }

    fn operand(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => obj! {"k": "copy", "p": self.place(body, p)},
            Operand::Move(p) => obj! {"k": "move", "p": self.place(body, p)},
            Operand::Constant(c) => self.constant(env, c),
            Operand::RuntimeChecks(r) => obj! {"k": "rtcheck", "n": format!("{r:?}")},
        }
    }

    fn rvalue(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let op = |o| self.operand(env, body, o);
        match r {
            Rvalue::Use(o, _) => obj! {"k": "use", "o": op(o)},
            Rvalue::Repeat(o, n) => obj! {"k": "repeat", "o": op(o), "n": format!("{n}")},
            Rvalue::Ref(_, bk, p) => {
                obj! {"k": "ref", "mut": matches!(bk, BorrowKind::Mut{..}), "p": self.place(body, p)}
            }
            Rvalue::RawPtr(k, p) => {
                obj! {"k": "rawptr", "mut": matches!(k, RawPtrKind::Mut), "p": self.place(body, p)}
            }
            Rvalue::Cast(k, o, t) => {
                obj! {"k": "cast", "ck": format!("{k:?}"), "o": op(o), "t": self.ty(*t), "from": self.ty(o.ty(&body.local_decls, self.tcx))}
            }
            Rvalue::BinaryOp(b, l) => {
                let (l, r) = &**l;
                obj! {"k": "bin", "op": format!("{b:?}"), "a": op(l), "b": op(r)}
            }
            Rvalue::UnaryOp(u, o) => obj! {"k": "un", "op": format!("{u:?}"), "o": op(o)},
            Rvalue::Discriminant(p) => obj! {"k": "discr", "p": self.place(body, p)},
            Rvalue::CopyForDeref(p) => {
                obj! {"k": "use", "o": obj!{"k": "copy", "p": self.place(body, p)}}
            }
            Rvalue::Reborrow(_, m, p) => {
                obj! {"k": "ref", "mut": m.is_mut(), "p": self.place(body, p)}
            }
            Rvalue::Aggregate(k, fs) => {
                let fs: Vec<J> = fs.iter().map(op).collect();
                match &**k {
                    AggregateKind::Adt(d, v, args, _, uf) => {
                        self.note_adt(*d);
                        let adt = self.tcx.adt_def(*d);
                        let var = adt.variant(*v);
                        let names: Vec<J> =
                            var.fields.iter().map(|f| J::Str(f.name.to_string())).collect();
                        obj! {"k": "agg", "ak": "adt", "p": path(self.tcx, *d), "v": v.as_usize(), "vn": var.name.to_string(), "a": self.args(args), "fs": fs, "ns": names, "uf": uf.map(|f| f.as_usize())}
                    }
                    AggregateKind::Tuple => obj! {"k": "agg", "ak": "tuple", "fs": fs},
                    AggregateKind::Array(_) => obj! {"k": "agg", "ak": "array", "fs": fs},
                    AggregateKind::Closure(d, _) => {
                        obj! {"k": "agg", "ak": "closure", "key": key(self.tcx, *d), "fs": fs}
                    }
                    AggregateKind::RawPtr(..) => obj! {"k": "agg", "ak": "rawptr", "fs": fs},
                    _ => obj! {"k": "agg", "ak": "other", "fs": fs},
                }
            }
            Rvalue::ThreadLocalRef(_) => obj! {"k": "other", "n": "tls"},
            Rvalue::WrapUnsafeBinder(..) => obj! {"k": "other", "n": "wrap"},
        }
    }

    fn callee(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>, func: &Operand<'tcx>) -> J {
        let t = func.ty(&body.local_decls, self.tcx);
        if let ty::FnDef(d, args) = t.kind() {
            let Some(args) = args.no_bound_vars() else {
                return obj! {"k": "fn", "n": canon(self.tcx, *d)};
            };
            let tcx = self.tcx;
            let tr = tcx.trait_of_assoc(*d).map(|t| path(tcx, t));
            let mut res = J::Null;
            let mut rkey = J::Null;
            let mut rargs = J::Null;
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, *d, eargs) {
                let rd = inst.def_id();
                res = J::Str(canon(tcx, rd));
                if ours(tcx, rd) {
                    rkey = J::Str(key(tcx, rd));
                }
                rargs = self.args(inst.args);
            }
            let safe = tcx.fn_sig(*d).skip_binder().safety().is_safe();
            return obj! {"k": "fn", "n": canon(tcx, *d), "trait": tr, "key": if ours(tcx, *d) { Some(key(tcx, *d)) } else { None },
            "a": self.args(args), "res": res, "rkey": rkey, "ra": rargs, "safe": safe};
        }
        obj! {"k": "val", "o": self.operand(env, body, func)}
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => J::Num(b.as_usize() as i128),
            _ => J::Null,
        }
    }

    fn body(&self, def: DefId, body: &Body<'tcx>, promoted: Option<usize>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(def));
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let n = names.get(&l.as_usize()).cloned();
                if n.is_some() {
                    obj! {"t": self.ty(d.ty), "n": n}
                } else {
                    obj! {"t": self.ty(d.ty)}
                }
            })
            .collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for st in &bb.statements {
                let sp = st.source_info.span;
                match &st.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        ss.push(obj! {"k": "=", "p": self.place(body, p), "r": self.rvalue(env, body, r), "sp": self.span(sp)});
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(obj! {"k": "setd", "p": self.place(body, place), "v": variant_index.as_usize(), "sp": self.span(sp)});
                    }
                    StatementKind::Intrinsic(i) => {
                        ss.push(obj! {"k": "intr", "n": format!("{i:?}"), "sp": self.span(sp)});
                    }
                    StatementKind::StorageDead(l) => {
                        ss.push(obj! {"k": "dead", "l": l.as_usize()});
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => obj! {"k": "goto", "t": target.as_usize()},
                TerminatorKind::SwitchInt { discr, targets } => {
                    let arms: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::Arr(vec![J::Num(v as i128), J::Num(b.as_usize() as i128)]))
                        .collect();
                    obj! {"k": "switch", "o": self.operand(env, body, discr), "arms": arms, "else": targets.otherwise().as_usize(), "sp": sp, "ty": self.ty(discr.ty(&body.local_decls, tcx))}
                }
                TerminatorKind::Return => obj! {"k": "ret", "sp": sp},
                TerminatorKind::Unreachable => obj! {"k": "unreachable", "sp": sp},
                TerminatorKind::UnwindResume => obj! {"k": "resume"},
                TerminatorKind::UnwindTerminate(_) => obj! {"k": "terminate"},
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    obj! {"k": "drop", "p": self.place(body, place), "t": target.as_usize(), "u": self.unwind(unwind), "sp": sp}
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a: Vec<J> = args.iter().map(|a| self.operand(env, body, &a.node)).collect();
                    obj! {"k": "call", "f": self.callee(env, body, func), "args": a, "d": self.place(body, destination),
                    "t": target.map(|t| t.as_usize()), "u": self.unwind(unwind), "sp": sp}
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let kind = match &**msg {
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::BoundsCheck { .. } => "bounds",
                        _ => "other",
                    };
                    obj! {"k": "assert", "o": self.operand(env, body, cond), "e": *expected, "n": kind, "t": target.as_usize(), "u": self.unwind(unwind), "sp": sp}
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    obj! {"k": "goto", "t": real_target.as_usize()}
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    obj! {"k": "goto", "t": real_target.as_usize()}
                }
                k => obj! {"k": "other", "n": format!("{k:?}")},
            };
            if bb.is_cleanup {
                blocks.push(obj! {"s": ss, "t": term, "c": true});
            } else {
                blocks.push(obj! {"s": ss, "t": term});
            }
        }
        let d = def.expect_local();
        let kind = tcx.def_kind(def);
        let parent = tcx.opt_parent(def);
        let mut impl_of = J::Null;
        let mut impl_key = J::Null;
        let mut self_ty = J::Null;
        if let Some(p) = parent {
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                impl_key = J::Str(key(tcx, p));
                self_ty = self.ty(tcx.type_of(p).skip_binder());
                if of_trait {
                    impl_of = J::Str(path(tcx, tcx.impl_trait_ref(p).skip_binder().def_id));
                }
            }
        }
        let ev = tcx.effective_visibilities(());
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn);
        let unsafe_fn = is_fn && !tcx.fn_sig(def).skip_binder().safety().is_safe();
        let mut sig_in = vec![];
        let mut sig_out = J::Null;
        let mut impl_out: Vec<J> = vec![];
        if is_fn && promoted.is_none() {
            let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
            let sig = tcx.liberate_late_bound_regions(def, sig);
            for t in sig.inputs() {
                sig_in.push(self.ty(*t));
            }
            sig_out = self.ty(sig.output());
            let _ = &mut impl_out;
        }
        let generics = tcx.generics_of(tcx.typeck_root_def_id(def));
        let mut gs: Vec<J> = vec![];
        let mut g = Some(generics);
        let mut chain = vec![];
        while let Some(x) = g {
            chain.push(x);
            g = x.parent.map(|p| tcx.generics_of(p));
        }
        for x in chain.iter().rev() {
            for p in &x.own_params {
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                    gs.push(J::Str(p.name.to_string()));
                }
            }
        }
        let upnames: Vec<J> = if tcx.is_closure_like(def) {
            tcx.closure_saved_names_of_captured_variables(def)
                .iter()
                .map(|s| J::Str(s.to_string()))
                .collect()
        } else {
            vec![]
        };
        obj! {
            "name": canon(tcx, def), "key": key(tcx, def), "kind": format!("{kind:?}"),
            "promoted": promoted,
            "impl_of": impl_of, "impl": impl_key, "self": self_ty,
            "parent": parent.map(|p| key(tcx, p)),
            "item": tcx.opt_item_name(def).map(|s| s.to_string()),
            "pub": ev.is_reachable(d), "exported": ev.is_exported(d),
            "unsafe": unsafe_fn, "argc": body.arg_count, "generics": gs,
            "sig_in": sig_in, "sig_out": sig_out,
            "up": upnames,
            "locals": locals, "blocks": blocks, "sp": self.span(body.span),
        }
    }
}

pub fn dump_crate<'tcx>(tcx: TyCtxt<'tcx>, config: &str) -> J {
    let cx = Cx { tcx, tys: Default::default(), adts: Default::default() };
    let mut bodies = vec![];
    for &d in tcx.mir_keys(()).iter() {
        let def = d.to_def_id();
        let kind = tcx.def_kind(def);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_constructor(def) {
                    continue;
                }
                let b = tcx.optimized_mir(def);
                bodies.push(cx.body(def, b, None));
                for (i, p) in tcx.promoted_mir(def).iter_enumerated() {
                    bodies.push(cx.body(def, p, Some(i.as_usize())));
                }
            }
            DefKind::AnonConst | DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                bodies.push(cx.body(def, tcx.mir_for_ctfe(def), None));
            }
            _ => {}
        }
    }

    // impls
    let mut impls = vec![];
    let crate_items = tcx.hir_crate_items(());
    for id in crate_items.free_items() {
        let def = id.owner_id.to_def_id();
        if let DefKind::Impl { of_trait } = tcx.def_kind(def) {
            let self_ty = tcx.type_of(def).skip_binder();
            let mut items = vec![];
            for it in tcx.associated_items(def).in_definition_order() {
                items.push(obj! {"n": it.opt_name().map(|s| s.to_string()), "key": key(tcx, it.def_id)});
            }
            let preds: Vec<J> = tcx
                .clauses_of(def)
                .instantiate_identity(tcx)
                .clauses
                .iter()
                .map(|p| J::Str(format!("{}", p.skip_norm_wip())))
                .collect();
            let targs = if of_trait {
                cx.args(tcx.impl_trait_header(def).trait_ref.skip_binder().args)
            } else {
                J::Null
            };
            let (tr, neg, uns, trs) = if of_trait {
                let h = tcx.impl_trait_header(def);
                let t = h.trait_ref.skip_binder();
                (
                    J::Str(path(tcx, t.def_id)),
                    matches!(h.polarity, ty::ImplPolarity::Negative),
                    matches!(h.safety, rustc_hir::Safety::Unsafe),
                    J::Str(t.to_string()),
                )
            } else {
                (J::Null, false, false, J::Null)
            };
            let derived = tcx.is_automatically_derived(def);
            impls.push(obj! {"key": key(tcx, def), "trait": tr, "tref": trs, "targs": targs, "self": cx.ty(self_ty), "neg": neg, "unsafe": uns,
                "items": items, "preds": preds, "derived": derived, "sp": cx.span(tcx.def_span(def))});
        }
    }

    // free items / ADTs
    let ev = tcx.effective_visibilities(());
    let mut mods = vec![];
    for id in crate_items.free_items() {
        let def = id.owner_id.to_def_id();
        match tcx.def_kind(def) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => cx.note_adt(def),
            DefKind::Mod => {
                mods.push(obj! {"p": path(tcx, def), "pub": ev.is_reachable(def.expect_local()),
                    "unsafe_code": unsafe_level(tcx, def.expect_local())})
            }
            _ => {}
        }
    }
    let mut adts = vec![];
    let mut i = 0;
    loop {
        let d = {
            let b = cx.adts.borrow();
            if i >= b.1.len() {
                break;
            }
            b.1[i]
        };
        i += 1;
        let adt = tcx.adt_def(d);
        let local = d.is_local();
        let mut variants = vec![];
        for v in adt.variants() {
            let fs: Vec<J> = v
                .fields
                .iter()
                .map(|f| {
                    if local || adt.is_enum() || path(tcx, d).starts_with("core::ops::range::") {
                        let t = tcx.type_of(f.did).skip_binder();
                        obj! {"n": f.name.to_string(), "t": cx.ty(t), "pub": f.vis.is_public(), "vis": format!("{:?}", f.vis)}
                    } else {
                        obj! {"n": f.name.to_string()}
                    }
                })
                .collect();
            variants.push(obj! {"n": v.name.to_string(), "fs": fs});
        }
        let repr = adt.repr();
        let mut auto = J::Null;
        if local {
            let ty = tcx.type_of(d).skip_binder();
            let penv = tcx.param_env(d);
            let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
            let mut v = vec![];
            let li = tcx.lang_items();
            let names: Vec<(&'static str, Option<DefId>)> = vec![
                ("Sync", li.sync_trait()),
                ("Freeze", li.freeze_trait()),
                ("Copy", li.copy_trait()),
                ("Clone", li.clone_trait()),
                ("Unpin", li.unpin_trait()),
                ("Send", tcx.get_diagnostic_item(rustc_span::sym::Send)),
            ];
            for (n, t) in names {
                if let Some(t) = t {
                    let r = infcx.type_implements_trait(t, [ty], penv);
                    v.push((n.to_string(), J::Bool(r.must_apply_modulo_regions())));
                }
            }
            let layout = tcx
                .layout_of(TypingEnv::post_analysis(tcx, d).as_query_input(ty))
                .ok()
                .map(|l| obj! {"size": l.size.bytes() as usize, "align": l.align.abi.bytes() as usize});
            v.push(("layout".to_string(), layout.unwrap_or(J::Null)));
            auto = J::Map(v);
        }
        let gs: Vec<J> = tcx
            .generics_of(d)
            .own_params
            .iter()
            .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
            .map(|p| J::Str(p.name.to_string()))
            .collect();
        adts.push(obj! {"p": path(tcx, d), "kind": format!("{:?}", adt.adt_kind()).to_lowercase(), "local": local, "generics": gs,
            "variants": variants, "c": repr.c(), "transparent": repr.transparent(),
            "packed": repr.packed(), "int": repr.int.map(|i| format!("{i:?}")),
            "auto": auto, "pub": if local { ev.is_reachable(d.expect_local()) } else { true },
            "sp": if local { cx.span(tcx.def_span(d)) } else { J::Null }});
    }

    // unsafe uses + visibility of every local fn signature (incl. opaque return types)
    let mut unsafes = vec![];
    collect_unsafe(&cx, &mut unsafes);

    let root_attrs: Vec<J> = tcx
        .hir_krate_attrs()
        .iter()
        .map(|a| J::Str(format!("{a:?}")))
        .collect();
    let tys = std::mem::take(&mut cx.tys.borrow_mut().1);
    obj! {
        "crate": tcx.crate_name(LOCAL_CRATE).to_string(),
        "config": config,
        "bodies": bodies, "impls": impls, "adts": adts, "mods": mods, "unsafe": unsafes,
        "attrs": root_attrs, "tys": tys,
    }
}

fn unsafe_level(tcx: TyCtxt<'_>, def: LocalDefId) -> Vec<J> {
    let hid = tcx.local_def_id_to_hir_id(def);
    tcx.hir_attrs(hid).iter().map(|a| format!("{a:?}")).filter(|a| a.contains("unsafe_code")).map(J::Str).collect()
}

fn collect_unsafe<'tcx>(cx: &Cx<'tcx>, out: &mut Vec<J>) {
    use rustc_hir::intravisit::{self, Visitor};
    struct V<'a, 'tcx> {
        cx: &'a Cx<'tcx>,
        out: &'a mut Vec<J>,
        cur: Option<LocalDefId>,
    }
    impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
        fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
            if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) =
                b.rules
            {
                let d = self.cur.map(|d| canon(self.cx.tcx, d.to_def_id()));
                self.out.push(obj! {"in": d, "sp": self.cx.span(b.span)});
            }
            intravisit::walk_block(self, b);
        }
    }
    for d in cx.tcx.hir_body_owners() {
        if let Some(b) = cx.tcx.hir_maybe_body_owned_by(d) {
            if cx.tcx.is_closure_like(d.to_def_id()) {
                continue;
            }
            let mut v = V { cx, out, cur: Some(d) };
            v.visit_body(b);
        }
    }
}
