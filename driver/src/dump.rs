use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut o = String::from("[");
    let mut first = true;
    for s in it {
        if !first {
            o.push(',');
        }
        first = false;
        o.push_str(&s);
    }
    o.push(']');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: FxHashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    adts: FxHashMap<DefId, ()>,
    adt_queue: Vec<DefId>,
}

pub fn def_name(tcx: TyCtxt<'_>, d: DefId) -> String {
    tcx.def_path_str(d)
}

impl<'tcx> Cx<'tcx> {
    fn adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_none() {
            self.adt_queue.push(d);
        }
    }

    fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = Vec::new();
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t).to_string()),
                GenericArgKind::Const(c) => v.push(self.tyconst(c)),
                GenericArgKind::Lifetime(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        list(v)
    }

    fn tyconst(&mut self, c: ty::Const<'tcx>) -> String {
        use ty::TypeVisitableExt;
        let mut c = c;
        if c.try_to_target_usize(self.tcx).is_none() && !c.has_non_region_param() {
            if let Ok(n) = self.tcx.try_normalize_erasing_regions(
                TypingEnv::fully_monomorphized(),
                ty::Unnormalized::new_wip(c),
            ) {
                c = n;
            }
        }
        match c.try_to_target_usize(self.tcx) {
            Some(v) => format!("{{\"v\":{v}}}"),
            None => format!("{{\"c\":{}}}", esc(&format!("{c}"))),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = esc(&format!("{t}"));
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(it) => format!("\"k\":\"int\",\"bits\":{}", it.bit_width().unwrap_or(64)),
            ty::Uint(it) => format!("\"k\":\"uint\",\"bits\":{}", it.bit_width().unwrap_or(64)),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Adt(def, args) => {
                self.adt(def.did());
                let a = self.gargs(args);
                format!("\"k\":\"adt\",\"def\":{},\"args\":{a}", esc(&def_name(tcx, def.did())))
            }
            ty::Array(e, n) => {
                let e = self.ty(e);
                let n = self.tyconst(n);
                format!("\"k\":\"array\",\"of\":{e},\"n\":{n}")
            }
            ty::Slice(e) => {
                let e = self.ty(e);
                format!("\"k\":\"slice\",\"of\":{e}")
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(e);
                format!("\"k\":\"ptr\",\"mut\":{},\"to\":{e}", m.is_mut())
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(e);
                format!("\"k\":\"ref\",\"mut\":{},\"to\":{e}", m.is_mut())
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let a = self.gargs(args);
                format!("\"k\":\"fndef\",\"def\":{},\"args\":{a}", esc(&def_name(tcx, d)))
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| def_name(tcx, d)).unwrap_or_default();
                format!("\"k\":\"dyn\",\"trait\":{}", esc(&p))
            }
            ty::Closure(d, args) => {
                let up: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.ty(t).to_string())
                    .collect();
                let pa: Vec<String> = args
                    .as_closure()
                    .parent_args()
                    .iter()
                    .filter_map(|a| a.as_type())
                    .map(|t| self.ty(t).to_string())
                    .collect();
                format!(
                    "\"k\":\"closure\",\"def\":{},\"up\":{},\"pargs\":{}",
                    esc(&def_name(tcx, d)),
                    list(up),
                    list(pa)
                )
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"of\":{}", list(v))
            }
            ty::Alias(_, a) => {
                if let ty::AliasTyKind::Projection { def_id } = a.kind {
                    let args = self.gargs(a.args);
                    let tr = tcx.parent(def_id);
                    format!(
                        "\"k\":\"alias\",\"trait\":{},\"name\":{},\"args\":{args}",
                        esc(&def_name(tcx, tr)),
                        esc(tcx.item_name(def_id).as_str())
                    )
                } else {
                    "\"k\":\"alias\"".to_string()
                }
            }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(p.name.as_str())),
            _ => "\"k\":\"other\"".to_string(),
        };
        let mut lay = String::new();
        {
            use ty::TypeVisitableExt;
            if !t.has_param() && !t.has_escaping_bound_vars() && !t.has_aliases() && !t.has_infer() {
                if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                    lay = format!(",\"sz\":{},\"al\":{}", l.size.bytes(), l.align.abi.bytes());
                    if l.is_sized() && matches!(t.kind(), ty::Adt(d, _) if d.is_struct()) {
                        if let rustc_abi::FieldsShape::Arbitrary { .. } = l.fields {
                            let offs: Vec<String> =
                                (0..l.fields.count()).map(|i| l.fields.offset(i).bytes().to_string()).collect();
                            let _ = write!(lay, ",\"offs\":{}", list(offs));
                        }
                    }
                    if !l.is_sized() {
                        lay.push_str(",\"unsized\":true");
                    }
                }
            }
        }
        self.ty_out[i] = format!("{{{body},\"s\":{s}{lay}}}");
        i
    }

    fn span(&self, sp: Span) -> (String, usize, bool) {
        let sm = self.tcx.sess.source_map();
        let from_exp = sp.from_expansion();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match lo.file.name {
            rustc_span::FileName::Real(ref r) => {
                r.local_path().map(|p| p.display().to_string()).unwrap_or_default()
            }
            _ => String::new(),
        };
        (f, lo.line, from_exp)
    }

    fn adt_json(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let mut vs = Vec::new();
        let is_enum = def.is_enum();
        let discrs: Vec<u128> =
            if is_enum { def.discriminants(tcx).map(|(_, d)| d.val).collect() } else { vec![0] };
        for (i, v) in def.variants().iter_enumerated() {
            let mut fs = Vec::new();
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = self.ty(t);
                fs.push(format!(
                    "{{\"n\":{},\"t\":{t},\"pub\":{}}}",
                    esc(f.name.as_str()),
                    tcx.visibility(f.did).is_public()
                ));
            }
            vs.push(format!(
                "{{\"n\":{},\"d\":{},\"f\":{}}}",
                esc(v.name.as_str()),
                if is_enum { discrs[i.as_usize()] } else { 0 },
                list(fs)
            ));
        }
        let repr = def.repr();
        let generics = tcx.generics_of(d);
        let mut gn = Vec::new();
        for p in generics.own_params.iter() {
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                gn.push(esc(p.name.as_str()));
            }
        }
        let (file, line, _) = self.span(tcx.def_span(d));
        format!(
            "{{\"def\":{},\"kind\":\"{}\",\"repr_c\":{},\"transparent\":{},\"packed\":{},\"local\":{},\"generics\":{},\"variants\":{},\"file\":{},\"line\":{line},\"reach\":{}}}",
            esc(&def_name(tcx, d)),
            if is_enum { "enum" } else if def.is_union() { "union" } else { "struct" },
            repr.c(),
            repr.transparent(),
            repr.packed(),
            d.is_local(),
            list(gn),
            list(vs),
            esc(&file),
            d.as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(true)
        )
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pr = Vec::new();
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"f\",{},{t}]", f.as_usize())
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{from},{to},{from_end}]")
                }
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => "[\"o\"]".to_string(),
            };
            pr.push(s);
            pty = pty.projection_ty(tcx, e);
        }
        if pr.is_empty() {
            return format!("[{}]", p.local.as_usize());
        }
        let t = self.ty(pty.ty);
        format!("[{},{},{t}]", p.local.as_usize(), list(pr))
    }

    fn const_(&mut self, env: TypingEnv<'tcx>, c: mir::Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, args) = *t.kind() {
            return format!("{{\"t\":{tid},\"fn\":{}}}", self.callee(env, d, args.skip_binder()));
        }
        // name of the constant, when it is a named item
        let mut name = String::new();
        if let mir::Const::Unevaluated(u, _) = c {
            name = match u.promoted {
                Some(p) => format!(",\"prom\":{}", p.as_usize()),
                None => {
                    let a = self.gargs(u.args);
                    format!(",\"cn\":{},\"ca\":{a}", esc(&def_name(tcx, u.def)))
                }
            };
        }
        let generic = {
            use ty::TypeVisitableExt;
            c.has_non_region_param()
        };
        let v = if generic {
            if let mir::Const::Ty(_, k) = c {
                format!(",\"gc\":{}", esc(&format!("{k}")))
            } else {
                String::new()
            }
        } else {
            match c.eval(tcx, env, rustc_span::DUMMY_SP) {
                Ok(cv) => self.cval(cv, t),
                Err(_) => String::new(),
            }
        };
        format!("{{\"t\":{tid}{name}{v}}}")
    }

    // A constant value as a small tree: ints, ADTs/tuples of ints, strings, byte slices.
    fn cval(&mut self, cv: mir::ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(s) = cv.try_to_scalar_int() {
                    return format!(",\"v\":{}", s.to_bits_unchecked());
                }
            }
            ty::Ref(_, inner, _) if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) => {
                if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                    if inner.is_str() {
                        return format!(",\"str\":{}", esc(&String::from_utf8_lossy(b)));
                    }
                    return format!(",\"bytes\":{}", list(b.iter().map(|x| x.to_string())));
                }
            }
            ty::Ref(_, inner, _) => {
                if let Some(v) = self.deref_tree(cv, *inner) {
                    return format!(",\"ref\":{v}");
                }
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let Some(v) = self.tree(cv, t, 0) {
                    return format!(",\"tree\":{v}");
                }
            }
            _ => {}
        }
        String::new()
    }

    fn deref_tree(&mut self, cv: mir::ConstValue, inner: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        if !matches!(inner.kind(), ty::Adt(..) | ty::Tuple(_) | ty::Array(..) | ty::Uint(_) | ty::Int(_) | ty::Bool) {
            return None;
        }
        let mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = cv else { return None };
        let (prov, off) = p.prov_and_relative_offset();
        let aid = prov.alloc_id();
        if !matches!(tcx.try_get_global_alloc(aid), Some(mir::interpret::GlobalAlloc::Memory(_))) {
            return None;
        }
        let icv = mir::ConstValue::Indirect { alloc_id: aid, offset: off };
        self.tree(icv, inner, 0)
    }

    fn tree(&mut self, cv: mir::ConstValue, t: Ty<'tcx>, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        if depth > 6 {
            return None;
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let mir::ConstValue::Indirect { alloc_id, offset } = cv {
                    let size = tcx
                        .layout_of(TypingEnv::fully_monomorphized().as_query_input(t))
                        .ok()?
                        .size;
                    let alloc = tcx.global_alloc(alloc_id).unwrap_memory();
                    let s = alloc
                        .inner()
                        .read_scalar(&tcx, mir::interpret::alloc_range(offset, size), false)
                        .ok()?;
                    let i = s.try_to_scalar_int().ok()?;
                    return Some(i.to_bits_unchecked().to_string());
                }
                cv.try_to_scalar_int().map(|s| s.to_bits_unchecked().to_string())
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                let b = cv.try_get_slice_bytes_for_diagnostics(tcx)?;
                Some(esc(&String::from_utf8_lossy(b)))
            }
            ty::Adt(def, _) if def.is_union() => None,
            ty::Array(_, n) if n.try_to_target_usize(tcx).is_some_and(|n| n > 4096) => None,
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                let d = tcx.try_destructure_mir_constant_for_user_output(cv, t)?;
                let mut fs = Vec::new();
                for (fcv, ft) in d.fields.iter() {
                    fs.push(self.tree(*fcv, *ft, depth + 1).unwrap_or("null".to_string()));
                }
                match t.kind() {
                    ty::Adt(def, _) => {
                        let v = d.variant.map(|v| v.as_usize()).unwrap_or(0);
                        let vn = def.variants().iter().nth(v).map(|v| v.name.to_string()).unwrap_or_default();
                        Some(format!(
                            "{{\"adt\":{},\"var\":{v},\"vn\":{},\"f\":{}}}",
                            esc(&def_name(tcx, def.did())),
                            esc(&vn),
                            list(fs)
                        ))
                    }
                    _ => Some(list(fs)),
                }
            }
            ty::FnDef(..) => None,
            _ => None,
        }
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"def\":{}", esc(&def_name(tcx, d)));
        let _ = write!(o, ",\"args\":{}", self.gargs(args));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", esc(&def_name(tcx, tr)));
            let _ = write!(o, ",\"name\":{}", esc(tcx.item_name(d).as_str()));
            if let Some(st) = args.types().next() {
                let st = self.ty(st);
                let _ = write!(o, ",\"self\":{st}");
            }
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            let _ = write!(o, ",\"impl_self\":{st}");
            if let Some(n) = tcx.opt_item_name(d) {
                let _ = write!(o, ",\"name\":{}", esc(n.as_str()));
            }
        }
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            if tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
                o.push_str(",\"unsafe\":true");
            }
            let args2 = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args2) {
                let rd = inst.def_id();
                if rd != d {
                    let _ = write!(o, ",\"res\":{}", esc(&def_name(tcx, rd)));
                    let _ = write!(o, ",\"rargs\":{}", self.gargs(inst.args));
                    if let ty::InstanceKind::Item(_) = inst.def {
                    } else {
                        o.push_str(",\"shim\":true");
                    }
                }
                o.push_str(",\"ok\":true");
                if rd.is_local() {
                    o.push_str(",\"local\":true");
                }
            }
        }
        o.push('}');
        o
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, *p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, *p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.const_(env, c.const_)),
            _ => "[\"rt\"]".to_string(),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(env, body, o)),
            Rvalue::Repeat(o, n) => {
                let o = self.operand(env, body, o);
                let n = self.tyconst(*n);
                format!("[\"repeat\",{o},{n}]")
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{m},{}]", self.place(body, *p))
            }
            Rvalue::RawPtr(k, p) => {
                format!("[\"rawptr\",\"{k:?}\",{}]", self.place(body, *p))
            }
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(env, body, o);
                let t = self.ty(*t);
                let ks = format!("{k:?}");
                format!("[\"cast\",{},{o},{t}]", esc(&ks))
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(env, body, &ab.0);
                let b = self.operand(env, body, &ab.1);
                format!("[\"bin\",\"{op:?}\",{a},{b}]")
            }
            Rvalue::UnaryOp(op, a) => {
                format!("[\"un\",\"{op:?}\",{}]", self.operand(env, body, a))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, *p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(env, body, o)).collect();
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _args, _, f) => {
                        self.adt(*d);
                        let _ = f;
                        format!("[\"adt\",{},{}]", esc(&def_name(tcx, *d)), v.as_usize())
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"closure\",{}]", esc(&def_name(tcx, *d)))
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{ks},{}]", list(v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, *p)),
            _ => format!("[\"other\",{}]", esc(&format!("{r:?}"))),
        }
    }

    fn unwind(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.as_usize().to_string(),
            _ => "null".to_string(),
        }
    }

    fn terminator(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, t: &Terminator<'tcx>) -> String {
        let (_f, line, exp) = self.span(t.source_info.span);
        let k = match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("\"k\":\"goto\",\"to\":{}", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let d = self.operand(env, body, discr);
                let ty = discr.ty(body, self.tcx);
                let ty = self.ty(ty);
                let v = list(targets.iter().map(|(v, b)| format!("[{v},{}]", b.as_usize())));
                format!(
                    "\"k\":\"switch\",\"on\":{d},\"ty\":{ty},\"cases\":{v},\"else\":{}",
                    targets.otherwise().as_usize()
                )
            }
            TerminatorKind::UnwindResume => "\"k\":\"resume\"".to_string(),
            TerminatorKind::UnwindTerminate(_) => "\"k\":\"abort\"".to_string(),
            TerminatorKind::Return => "\"k\":\"return\"".to_string(),
            TerminatorKind::Unreachable => "\"k\":\"unreachable\"".to_string(),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let p = self.place(body, *place);
                format!("\"k\":\"drop\",\"p\":{p},\"to\":{},\"uw\":{}", target.as_usize(), Self::unwind(unwind))
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let f = self.operand(env, body, func);
                let a: Vec<String> = args.iter().map(|x| self.operand(env, body, &x.node)).collect();
                let d = self.place(body, *destination);
                format!(
                    "\"k\":\"call\",\"f\":{f},\"a\":{},\"d\":{d},\"to\":{},\"uw\":{}",
                    list(a),
                    target.map(|b| b.as_usize().to_string()).unwrap_or("null".into()),
                    Self::unwind(unwind)
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let c = self.operand(env, body, cond);
                let m = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        let l = self.operand(env, body, len);
                        let i = self.operand(env, body, index);
                        format!("[\"bounds\",{l},{i}]")
                    }
                    AssertKind::Overflow(op, a, b) => {
                        let a = self.operand(env, body, a);
                        let b = self.operand(env, body, b);
                        format!("[\"overflow\",\"{op:?}\",{a},{b}]")
                    }
                    AssertKind::OverflowNeg(a) => {
                        format!("[\"neg\",{}]", self.operand(env, body, a))
                    }
                    AssertKind::DivisionByZero(a) => {
                        format!("[\"div0\",{}]", self.operand(env, body, a))
                    }
                    AssertKind::RemainderByZero(a) => {
                        format!("[\"rem0\",{}]", self.operand(env, body, a))
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!(
                    "\"k\":\"assert\",\"c\":{c},\"exp\":{expected},\"msg\":{m},\"to\":{},\"uw\":{}",
                    target.as_usize(),
                    Self::unwind(unwind)
                )
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                format!("\"k\":\"goto\",\"to\":{}", real_target.as_usize())
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                format!("\"k\":\"goto\",\"to\":{}", real_target.as_usize())
            }
            _ => "\"k\":\"other\"".to_string(),
        };
        format!("{{{k},\"l\":{line}{}}}", if exp { ",\"x\":1" } else { "" })
    }

    fn body(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> String {
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = Vec::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                let p = self.place(body, p);
                names.push(format!("[{},{p}]", esc(v.name.as_str())));
            }
        }
        let mut bs = Vec::new();
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut ss = Vec::new();
            for s in bb.statements.iter() {
                let line = self.span(s.source_info.span).1;
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, b.0);
                        let r = self.rvalue(env, body, &b.1);
                        ss.push(format!("[\"=\",{p},{r},{line}]"));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, **place);
                        ss.push(format!("[\"sd\",{p},{},{line}]", variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => {
                            let o = self.operand(env, body, o);
                            ss.push(format!("[\"assume\",{o},{line}]"));
                        }
                        _ => ss.push(format!("[\"copy_nonoverlapping\",{line}]")),
                    },
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = self.terminator(env, body, bb.terminator());
            bs.push(format!(
                "{{\"s\":{},\"t\":{t}{}}}",
                list(ss),
                if bb.is_cleanup { ",\"cl\":1" } else { "" }
            ));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{}",
            body.arg_count,
            list(locals),
            list(names),
            list(bs)
        )
    }
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut cx = Cx { tcx, tys: Default::default(), ty_out: vec![], adts: Default::default(), adt_queue: vec![] };
    let mut fns = Vec::new();
    let mut cbodies = Vec::new();
    let ev = tcx.effective_visibilities(());
    for ld in tcx.mir_keys(()).iter().copied() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        if !is_fn {
            if matches!(kind, DefKind::Static { .. })
                || matches!(kind, DefKind::AnonConst | DefKind::AssocConst { .. })
                    && tcx.generics_of(d).requires_monomorphization(tcx)
            {
                let env = TypingEnv::post_analysis(tcx, d);
                let (file, line, exp) = cx.span(tcx.def_span(d));
                let mut gn = Vec::new();
                let mut g = Some(tcx.generics_of(d));
                let mut parts: Vec<Vec<String>> = Vec::new();
                while let Some(gg) = g {
                    parts.push(
                        gg.own_params
                            .iter()
                            .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
                            .map(|p| esc(p.name.as_str()))
                            .collect(),
                    );
                    g = gg.parent.map(|p| tcx.generics_of(p));
                }
                for p in parts.into_iter().rev() {
                    gn.extend(p);
                }
                let b = tcx.mir_for_ctfe(d);
                let mut o = format!(
                    "{{\"def\":{},\"kind\":\"const\",\"file\":{},\"line\":{line},\"exp\":{exp},\"reach\":false,\"generics\":{},{}",
                    esc(&def_name(tcx, d)),
                    esc(&file),
                    list(gn),
                    cx.body(env, b)
                );
                if o.contains("\"prom\":") {
                    let ps: Vec<String> =
                        tcx.promoted_mir(d).iter().map(|b| format!("{{{}}}", cx.body(env, b))).collect();
                    let _ = write!(o, ",\"proms\":{}", list(ps));
                }
                o.push('}');
                cbodies.push(o);
            }
            continue;
        }
        let env = TypingEnv::post_analysis(tcx, d);
        let (file, line, exp) = cx.span(tcx.def_span(d));
        let mut o = format!(
            "{{\"def\":{},\"path\":{},\"kind\":\"{kind:?}\",\"file\":{},\"line\":{line},\"exp\":{exp}",
            esc(&def_name(tcx, d)),
            esc(&tcx.def_path(d).to_string_no_crate_verbose()),
            esc(&file)
        );
        let root = tcx.typeck_root_def_id(d);
        if let Some(l) = root.as_local() {
            let _ = write!(o, ",\"reach\":{}", ev.is_reachable(l));
        }
        if root != d {
            let _ = write!(o, ",\"root\":{}", esc(&def_name(tcx, root)));
        }
        let _ = write!(o, ",\"mod\":{}", esc(&tcx.def_path_str(tcx.parent_module_from_def_id(ld).to_def_id())));
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = cx.ty(st);
            let _ = write!(o, ",\"impl_self\":{st}");
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"impl_trait\":{}", esc(&def_name(tcx, tr.def_id)));
                let a = cx.gargs(tr.args);
                let _ = write!(o, ",\"impl_trait_args\":{a}");
            }
            let _ = write!(o, ",\"name\":{}", esc(tcx.item_name(d).as_str()));
            if tcx.is_automatically_derived(im) {
                o.push_str(",\"derived\":true");
            }
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"in_trait\":{}", esc(&def_name(tcx, tr)));
            let _ = write!(o, ",\"name\":{}", esc(tcx.item_name(d).as_str()));
        } else if let Some(n) = tcx.opt_item_name(d) {
            let _ = write!(o, ",\"name\":{}", esc(n.as_str()));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            let _ = write!(o, ",\"sig\":{}", esc(&format!("{}", sig)));
            if sig.safety().is_unsafe() {
                o.push_str(",\"unsafe\":true");
            }
            if tcx.is_const_fn(d) {
                o.push_str(",\"const\":true");
            }
        }
        let mut gn = Vec::new();
        {
            let mut g = Some(tcx.generics_of(d));
            let mut parts: Vec<Vec<String>> = Vec::new();
            while let Some(gg) = g {
                let mut v = Vec::new();
                for p in gg.own_params.iter() {
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        v.push(esc(p.name.as_str()));
                    }
                }
                parts.push(v);
                g = gg.parent.map(|p| tcx.generics_of(p));
            }
            for p in parts.into_iter().rev() {
                gn.extend(p);
            }
        }
        let _ = write!(o, ",\"generics\":{}", list(gn));
        let mut bn = Vec::new();
        for p in tcx.param_env(d).caller_bounds() {
            if let Some(tp) = p.as_trait_clause() {
                let tp = tp.skip_binder();
                if let ty::Param(pt) = tp.self_ty().kind() {
                    bn.push(format!("[{},{}]", esc(pt.name.as_str()), esc(&def_name(tcx, tp.def_id()))));
                }
            }
        }
        let _ = write!(o, ",\"bounds\":{}", list(bn));
        if let Some(b) = tcx.hir_maybe_body_owned_by(ld) {
            let mut v = UnsafeBlocks { tcx, lines: Vec::new() };
            rustc_hir::intravisit::Visitor::visit_body(&mut v, b);
            if !v.lines.is_empty() {
                let _ = write!(o, ",\"ublocks\":{}", list(v.lines.iter().map(|l| l.to_string())));
            }
        }
        let steal = tcx.mir_drops_elaborated_and_const_checked(ld);
        if steal.is_stolen() {
            let b = tcx.optimized_mir(d);
            let _ = write!(o, ",\"opt\":true,{}", cx.body(env, b));
        } else {
            let b = steal.borrow();
            let _ = write!(o, ",{}", cx.body(env, &b));
        }
        let has_prom = o.contains("\"prom\":");
        if has_prom {
            let ps: Vec<String> =
                tcx.promoted_mir(d).iter().map(|b| format!("{{{}}}", cx.body(env, b))).collect();
            let _ = write!(o, ",\"proms\":{}", list(ps));
        }
        o.push('}');
        fns.push(o);
    }
    // items
    let mut consts = Vec::new();
    let mut impls = Vec::new();
    let mut traits = Vec::new();
    let mut statics = Vec::new();
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                use ty::TypeVisitableExt;
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let generics = tcx.generics_of(d);
                let mut v = String::new();
                if !t.has_non_region_param() && generics.own_requires_monomorphization() == false
                    && !(tcx.trait_of_assoc(d).is_some())
                    && generics.parent.is_none_or(|p| !tcx.generics_of(p).requires_monomorphization(tcx)) {
                    if let Ok(cv) = tcx.const_eval_poly(d) {
                        v = cx.cval(cv, t);
                    }
                }
                let tid = cx.ty(t);
                let (file, line, _) = cx.span(tcx.def_span(d));
                consts.push(format!(
                    "{{\"def\":{},\"t\":{tid},\"file\":{},\"line\":{line},\"reach\":{}{v}}}",
                    esc(&def_name(tcx, d)),
                    esc(&file),
                    ev.is_reachable(ld)
                ));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tid = cx.ty(t);
                statics.push(format!("{{\"def\":{},\"t\":{tid},\"mut\":{}}}", esc(&def_name(tcx, d)), mutability.is_mut()));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                cx.adt(d);
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let sid = cx.ty(st);
                let (file, line, exp) = cx.span(tcx.def_span(d));
                let mut o = format!("{{\"self\":{sid},\"file\":{},\"line\":{line},\"exp\":{exp}", esc(&file));
                if of_trait {
                    let h = tcx.impl_trait_header(d);
                    let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"trait\":{}", esc(&def_name(tcx, tr.def_id)));
                    let _ = write!(o, ",\"targs\":{}", cx.gargs(tr.args));
                    let _ = write!(o, ",\"unsafe\":{}", h.safety.is_unsafe());
                    let _ = write!(o, ",\"negative\":{}", !matches!(h.polarity, ty::ImplPolarity::Positive));
                }
                let _ = write!(o, ",\"derived\":{}", tcx.is_automatically_derived(d));
                let preds = list(
                    tcx.clauses_of(d)
                        .instantiate_identity(tcx)
                        .clauses
                        .iter()
                        .map(|p| esc(&format!("{:?}", p))),
                );
                let _ = write!(o, ",\"preds\":{preds}");
                let items = list(tcx.associated_items(d).in_definition_order().map(|i| {
                    let aty = if i.is_type() {
                        let t = tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip();
                        format!(",\"ty\":{}", cx.ty(t))
                    } else {
                        String::new()
                    };
                    format!(
                        "{{\"n\":{},\"k\":{},\"def\":{}{aty}}}",
                        esc(i.opt_name().map(|s| s.to_string()).unwrap_or_default().as_str()),
                        esc(&format!("{:?}", i.tag())),
                        esc(&def_name(tcx, i.def_id))
                    )
                }));
                let _ = write!(o, ",\"items\":{items}}}");
                impls.push(o);
            }
            DefKind::Trait => {
                let items = list(tcx.associated_items(d).in_definition_order().map(|i| {
                    format!(
                        "{{\"n\":{},\"k\":{},\"def\":{},\"default\":{}}}",
                        esc(i.opt_name().map(|s| s.to_string()).unwrap_or_default().as_str()),
                        esc(&format!("{:?}", i.tag())),
                        esc(&def_name(tcx, i.def_id)),
                        tcx.defaultness(i.def_id).has_value()
                    )
                }));
                traits.push(format!(
                    "{{\"def\":{},\"unsafe\":{},\"reach\":{},\"items\":{items}}}",
                    esc(&def_name(tcx, d)),
                    tcx.trait_def(d).safety.is_unsafe(),
                    ev.is_reachable(ld)
                ));
            }
            _ => {}
        }
    }
    let mut adts = Vec::new();
    while let Some(d) = cx.adt_queue.pop() {
        let j = cx.adt_json(d);
        adts.push(j);
    }
    let _ = LOCAL_CRATE;
    format!(
        "{{\"crate\":{},\"types\":{},\n\"adts\":{},\n\"consts\":{},\n\"statics\":{},\n\"impls\":{},\n\"traits\":{},\n\"cbodies\":[{}],\n\"fns\":[\n{}\n]}}\n",
        esc(tcx.crate_name(LOCAL_CRATE).as_str()),
        list(cx.ty_out.iter().cloned()),
        list(adts),
        list(consts),
        list(statics),
        list(impls),
        list(traits),
        cbodies.join(",\n"),
        fns.join(",\n")
    )
}

/// Lines of the unsafe blocks the crate itself writes (macros of other crates excluded).
struct UnsafeBlocks<'tcx> {
    tcx: TyCtxt<'tcx>,
    lines: Vec<usize>,
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeBlocks<'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let e = b.span.ctxt().outer_expn_data();
            let foreign = e.macro_def_id.is_some_and(|m| !m.is_local());
            if !foreign {
                let sm = self.tcx.sess.source_map();
                self.lines.push(sm.lookup_char_pos(b.span.source_callsite().lo()).line);
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}
