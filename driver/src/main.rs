#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    ws: Vec<String>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(usize, Instance<'tcx>, TypingEnv<'tcx>)>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn in_ws(&self, d: DefId) -> bool {
        let n = self.tcx.crate_name(d.krate);
        self.ws.iter().any(|w| w == n.as_str())
    }
    fn full(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn last(&self, d: DefId) -> String {
        self.tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_else(|| "{anon}".into())
    }
    fn ty_short(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Adt(a, _) => self.last(a.did()),
            TyKind::Slice(_) => "[T]".into(),
            TyKind::Array(..) => "[T;N]".into(),
            TyKind::Str => "str".into(),
            TyKind::Ref(_, i, _) => format!("&{}", self.ty_short(*i)),
            TyKind::RawPtr(_, _) => "ptr".into(),
            TyKind::Dynamic(..) => "dyn".into(),
            TyKind::Tuple(..) => "tuple".into(),
            TyKind::Param(p) => p.name.to_string(),
            TyKind::Alias(..) => "alias".into(),
            TyKind::Closure(..) => "closure".into(),
            TyKind::FnDef(..) => "fndef".into(),
            TyKind::FnPtr(..) => "fnptr".into(),
            _ => format!("{t}"),
        }
    }
    /// short, refactor-stable name: `Trait::method` for trait items, `<Self as Trait>::m` for impl items, `Type::m`, `mod::f`
    fn short(&self, d: DefId) -> String {
        let tcx = self.tcx;
        match tcx.def_kind(d) {
            DefKind::Closure => {
                let p = tcx.parent(d);
                return format!("{}::{{closure}}", self.short(p));
            }
            DefKind::Ctor(..) => {
                let p = tcx.parent(d);
                if tcx.def_kind(p) == DefKind::Variant {
                    let e = tcx.parent(p);
                    return format!("{}::{}", self.last(e), self.last(p));
                }
                return self.last(p);
            }
            _ => {}
        }
        let name = self.last(d);
        if let Some(p) = tcx.opt_parent(d) {
            match tcx.def_kind(p) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    if let Some(tr) = tcx.impl_opt_trait_id(p) {
                        return format!("<{} as {}>::{}", self.ty_short(st), self.last(tr), name);
                    }
                    return format!("{}::{}", self.ty_short(st), name);
                }
                DefKind::Trait => return format!("{}::{}", self.last(p), name),
                DefKind::Mod => {
                    let m = tcx.opt_item_name(p).map(|s| s.to_string()).unwrap_or_else(|| tcx.crate_name(d.krate).to_string());
                    return format!("{}::{}", m, name);
                }
                DefKind::Fn | DefKind::AssocFn => return format!("{}::{}", self.short(p), name),
                _ => {}
            }
        }
        name
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(String::new());
        let tcx = self.tcx;
        let s = js(&format!("{t}"));
        let o = match *t.kind() {
            TyKind::Adt(a, args) => {
                let mut o = format!("{{\"k\":\"adt\",\"n\":{},\"full\":{},\"kind\":{},\"args\":[", js(&self.last(a.did())), js(&self.full(a.did())), js(if a.is_enum() {"enum"} else if a.is_union() {"union"} else {"struct"}));
                let mut first = true;
                for g in args.iter() {
                    if let Some(x) = g.as_type() {
                        let i = self.ty(x);
                        if !first { o.push(','); }
                        first = false;
                        let _ = write!(o, "{i}");
                    }
                }
                o.push_str("],\"variants\":[");
                for (vi, v) in a.variants().iter_enumerated() {
                    if vi.as_usize() > 0 { o.push(','); }
                    let d = if a.is_enum() { a.discriminant_for_variant(tcx, vi).val } else { 0 };
                    let _ = write!(o, "{{\"n\":{},\"d\":\"{}\",\"f\":[", js(v.name.as_str()), d);
                    for (fi, f) in v.fields.iter_enumerated() {
                        if fi.as_usize() > 0 { o.push(','); }
                        o.push_str(&js(f.name.as_str()));
                    }
                    o.push(']');
                    if self.in_ws(a.did()) {
                        o.push_str(",\"ft\":[");
                        for (fi, f) in v.fields.iter_enumerated() {
                            if fi.as_usize() > 0 { o.push(','); }
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let i = self.ty(ft);
                            let _ = write!(o, "{i}");
                        }
                        o.push(']');
                    }
                    o.push('}');
                }
                let _ = write!(o, "],\"s\":{s}}}");
                o
            }
            TyKind::Ref(_, i, m) => { let i = self.ty(i); format!("{{\"k\":\"ref\",\"mut\":{},\"to\":{i},\"s\":{s}}}", m.is_mut()) }
            TyKind::RawPtr(i, m) => { let i = self.ty(i); format!("{{\"k\":\"ptr\",\"mut\":{},\"to\":{i},\"s\":{s}}}", m.is_mut()) }
            TyKind::Slice(i) => { let i = self.ty(i); format!("{{\"k\":\"slice\",\"to\":{i},\"s\":{s}}}") }
            TyKind::Array(i, n) => { let i = self.ty(i); let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into()); format!("{{\"k\":\"array\",\"to\":{i},\"n\":{n},\"s\":{s}}}") }
            TyKind::Tuple(l) => { let v: Vec<String> = l.iter().map(|x| self.ty(x).to_string()).collect(); format!("{{\"k\":\"tuple\",\"args\":[{}],\"s\":{s}}}", v.join(",")) }
            TyKind::Closure(d, args) => {
                let inst = Instance { def: InstanceKind::Item(d), args };
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let b = if self.in_ws(d) { self.inst(inst).to_string() } else { "null".into() };
                format!("{{\"k\":\"closure\",\"body\":{b},\"kind\":{},\"up\":[{}],\"s\":{s}}}", js(&format!("{:?}", args.as_closure().kind())), ups.join(","))
            }
            TyKind::FnDef(d, args) => { let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder()); let c = self.callee(d, args); format!("{{\"k\":\"fndef\",\"callee\":{c},\"s\":{s}}}") }
            TyKind::Bool | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) | TyKind::Char => format!("{{\"k\":\"prim\",\"n\":{s},\"s\":{s}}}"),
            TyKind::Str => format!("{{\"k\":\"str\",\"s\":{s}}}"),
            TyKind::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{s}}}"),
            TyKind::Param(_) => format!("{{\"k\":\"param\",\"s\":{s}}}"),
            TyKind::Never => format!("{{\"k\":\"never\",\"s\":{s}}}"),
            _ => format!("{{\"k\":\"other\",\"s\":{s}}}"),
        };
        self.ty_out[id] = o;
        id
    }
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.insts.get(&i) { return *x; }
        let id = self.insts.len();
        self.insts.insert(i, id);
        self.queue.push_back((id, i, self.env));
        id
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"n\":{},\"full\":{},\"krate\":{},", js(&self.short(d)), js(&self.full(d)), js(tcx.crate_name(d.krate).as_str()));
        let v: Vec<String> = args.iter().filter_map(|g| g.as_type()).map(|x| self.ty(x).to_string()).collect();
        let _ = write!(o, "\"targs\":[{}],", v.join(","));
        let kind = tcx.def_kind(d);
        if let DefKind::Ctor(..) = kind {
            let p = tcx.parent(d);
            let (adt, vi) = if tcx.def_kind(p) == DefKind::Variant {
                let e = tcx.parent(p);
                (e, tcx.adt_def(e).variant_index_with_id(p).as_usize())
            } else { (p, 0) };
            let t = tcx.type_of(adt).instantiate(tcx, args).skip_norm_wip();
            let t = self.ty(t);
            let _ = write!(o, "\"ctor\":[{t},{vi}],");
        }
        let is_trait = tcx.opt_parent(d).map(|p| tcx.def_kind(p) == DefKind::Trait).unwrap_or(false);
        let _ = write!(o, "\"trait\":{is_trait},");
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let eargs = tcx.erase_and_anonymize_regions(args);
            let r = Instance::try_resolve(tcx, self.env, d, eargs);
            if let Ok(Some(i)) = r {
                let (def, shim) = match i.def {
                    InstanceKind::Item(x) => (x, "item"),
                    InstanceKind::Intrinsic(x) => (x, "intrinsic"),
                    InstanceKind::Virtual(x, _) => (x, "virtual"),
                    InstanceKind::Shim(s) => match s {
                        rustc_middle::ty::ShimKind::ClosureOnce { .. } => (i.def_id(), "closure_once"),
                        _ => (i.def_id(), "shim"),
                    },
                    _ => (i.def_id(), "other"),
                };
                let _ = write!(o, "\"rn\":{},\"rkind\":{},\"rkrate\":{},", js(&self.short(def)), js(shim), js(tcx.crate_name(def.krate).as_str()));
                if shim == "item" && self.in_ws(def) && tcx.is_mir_available(def) {
                    let k = self.inst(i);
                    let _ = write!(o, "\"inst\":{k},");
                }
                if shim == "closure_once" {
                    if let Some(t) = i.args.types().next() {
                        let t = self.ty(t);
                        let _ = write!(o, "\"cty\":{t},");
                    }
                }
            }
        }
        o.push_str("\"z\":0}");
        o
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        for e in p.projection.iter() {
            match e {
                PlaceElem::Deref => o.push_str(",\"*\""),
                PlaceElem::Field(f, t) => { let t = self.ty(t); let _ = write!(o, ",[\"f\",{},{}]", f.as_usize(), t); }
                PlaceElem::Index(l) => { let _ = write!(o, ",[\"i\",{}]", l.as_usize()); }
                PlaceElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(o, ",[\"ci\",{offset},{min_length},{from_end}]"); }
                PlaceElem::Subslice { from, to, from_end } => { let _ = write!(o, ",[\"ss\",{from},{to},{from_end}]"); }
                PlaceElem::Downcast(_, v) => { let _ = write!(o, ",[\"d\",{}]", v.as_usize()); }
                _ => o.push_str(",\"?\""),
            }
        }
        o.push(']');
        o
    }
    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: usize, len: Option<usize>) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                let n = m.len();
                let end = match len { Some(l) => off + l, None => n };
                if end > n || !m.provenance().ptrs().is_empty() { return None; }
                Some(m.inspect_with_uninit_and_ptr_outside_interpreter(off..end).to_vec())
            }
            GlobalAlloc::Static(d) => {
                if self.tcx.is_mutable_static(d) || self.tcx.is_foreign_item(d) || self.tcx.is_thread_local_static(d) { return None; }
                let a = self.tcx.eval_static_initializer(d).ok()?;
                let m = a.inner();
                if m.mutability.is_mut() { return None; }
                let n = m.len();
                let end = match len { Some(l) => off + l, None => n };
                if end > n || !m.provenance().ptrs().is_empty() { return None; }
                Some(m.inspect_with_uninit_and_ptr_outside_interpreter(off..end).to_vec())
            }
            _ => None,
        }
    }
    fn cnst(&mut self, c: &Const<'tcx>, span: Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        let mut o = format!("{{\"c\":1,\"ty\":{ti}");
        if let TyKind::FnDef(d, args) = *t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            let cal = self.callee(d, args);
            let _ = write!(o, ",\"fn\":{cal}}}");
            return o;
        }
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                let _ = write!(o, ",\"name\":{}", js(&self.short(u.def)));
            } else {
                o.push_str(",\"prom\":1");
            }
        }
        let generic = c.has_non_region_param();
        let val = if generic && matches!(c, Const::Ty(..)) { None } else { c.eval(tcx, self.env, span).ok() };
        let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
        match val {
            Some(ConstValue::Scalar(Scalar::Int(i))) => {
                let sz = i.size();
                let _ = write!(o, ",\"int\":\"{}\",\"sz\":{}", i.to_bits(sz), sz.bytes());
            }
            Some(ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, off) = p.prov_and_relative_offset();
                let id = prov.alloc_id();
                if let Some(GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(id) {
                    let _ = write!(o, ",\"static\":{}", js(&self.short(d)));
                }
                if let TyKind::Ref(_, inner, _) = *t.kind() {
                    let len = match *inner.kind() {
                        _ => tcx.layout_of(self.env.as_query_input(inner)).ok().filter(|l| l.is_sized()).map(|l| l.size.bytes() as usize),
                    };
                    if let Some(b) = self.alloc_bytes(id, off.bytes() as usize, len) {
                        let _ = write!(o, ",\"rbytes\":\"{}\"", hex(&b));
                    } else if let TyKind::Ref(_, in2, _) = *inner.kind() {
                        // a reference to a reference: follow the pointer it is made of
                        if let (Some(GlobalAlloc::Memory(m)), Some(l2)) = (tcx.try_get_global_alloc(id), tcx.layout_of(self.env.as_query_input(in2)).ok().filter(|l| l.is_sized()).map(|l| l.size.bytes() as usize)) {
                            let m = m.inner();
                            let here = m.provenance().ptrs().iter().find(|(at, _)| at.bytes() == off.bytes()).map(|(_, p)| *p);
                            if let (Some(p2), true) = (here, off.bytes() as usize + 8 <= m.len()) {
                                let at = off.bytes() as usize;
                                let raw = m.inspect_with_uninit_and_ptr_outside_interpreter(at..at + 8);
                                let o2 = u64::from_le_bytes(raw.try_into().unwrap());
                                if let Some(b) = self.alloc_bytes(p2.alloc_id(), o2 as usize, Some(l2)) {
                                    let _ = write!(o, ",\"rrbytes\":\"{}\"", hex(&b));
                                }
                            }
                        }
                    }
                }
            }
            Some(ConstValue::Slice { alloc_id, meta }) => {
                let isstr = matches!(t.kind(), TyKind::Ref(_, i, _) if i.is_str());
                if let Some(b) = self.alloc_bytes(alloc_id, 0, None) {
                    if isstr {
                        let _ = write!(o, ",\"str\":{}", js(&String::from_utf8_lossy(&b)));
                    } else {
                        let _ = write!(o, ",\"rbytes\":\"{}\",\"meta\":{}", hex(&b), meta);
                    }
                }
            }
            Some(ConstValue::Indirect { alloc_id, offset }) => {
                let len = tcx.layout_of(self.env.as_query_input(t)).ok().map(|l| l.size.bytes() as usize);
                if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes() as usize, len) {
                    let _ = write!(o, ",\"bytes\":\"{}\"", hex(&b));
                }
            }
            Some(ConstValue::ZeroSized) => o.push_str(",\"zst\":1"),
            None => o.push_str(",\"unk\":1"),
        }
        o.push('}');
        o
    }
    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(p)),
            Operand::Constant(c) => self.cnst(&c.const_, c.span),
            Operand::RuntimeChecks(r) => format!("{{\"c\":1,\"rt\":{}}}", js(&format!("{r:?}"))),
        }
    }
    fn ops<'a, I: Iterator<Item = &'a Operand<'tcx>>>(&mut self, it: I) -> String where 'tcx: 'a {
        let v: Vec<String> = it.map(|x| self.op(x)).collect();
        format!("[{}]", v.join(","))
    }
    fn rv(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.op(o)),
            Rvalue::Repeat(o, n) => {
                let nn = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{nn}}}", self.op(o))
            }
            Rvalue::Ref(_, k, p) => format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"rawptr\",\"p\":{}}}", self.place(p)),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); format!("{{\"r\":\"cast\",\"k\":{},\"o\":{},\"ty\":{t}}}", js(&format!("{k:?}")), self.op(o)) }
            Rvalue::BinaryOp(b, x) => format!("{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}", js(&format!("{b:?}")), self.op(&x.0), self.op(&x.1)),
            Rvalue::UnaryOp(u, o) => format!("{{\"r\":\"un\",\"op\":{},\"o\":{}}}", js(&format!("{u:?}")), self.op(o)),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os = self.ops(ops.iter());
                match &**k {
                    AggregateKind::Array(_) => format!("{{\"r\":\"agg\",\"k\":\"array\",\"ops\":{os}}}"),
                    AggregateKind::Tuple => format!("{{\"r\":\"agg\",\"k\":\"tuple\",\"ops\":{os}}}"),
                    AggregateKind::Adt(d, v, args, _, af) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.ty(t);
                        format!("{{\"r\":\"agg\",\"k\":\"adt\",\"ty\":{t},\"v\":{},\"af\":{},\"ops\":{os}}}", v.as_usize(), af.map(|x| x.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.ty(t);
                        format!("{{\"r\":\"agg\",\"k\":\"closure\",\"ty\":{t},\"ops\":{os}}}")
                    }
                    AggregateKind::RawPtr(..) => format!("{{\"r\":\"agg\",\"k\":\"rawptr\",\"ops\":{os}}}"),
                    _ => format!("{{\"r\":\"agg\",\"k\":\"other\",\"ops\":{os}}}"),
                }
            }
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"cp\":{}}}}}", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", m.is_mut(), self.place(p)),
            other => format!("{{\"r\":\"other\",\"s\":{}}}", js(&format!("{other:?}"))),
        }
    }
    fn line(&self, s: Span) -> usize {
        let s = s.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(s.lo()).line
    }
    fn file(&self, s: Span) -> String {
        let s = s.source_callsite();
        format!("{}", self.tcx.sess.source_map().lookup_char_pos(s.lo()).file.name.prefer_local_unconditionally())
    }
    fn body(&mut self, id: usize, inst: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let raw = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, raw.clone()));
        let d = inst.def_id();
        let mut o = format!("{{\"id\":{id},\"n\":{},\"full\":{},\"krate\":{},\"inst\":{},\"file\":{},\"line\":{},\"argc\":{},", js(&self.short(d)), js(&self.full(d)), js(tcx.crate_name(d.krate).as_str()), js(&format!("{inst}")), js(&self.file(body.span)), self.line(body.span), body.arg_count);
        let targs: Vec<String> = inst.args.iter().filter_map(|g| g.as_type()).map(|x| self.ty(x).to_string()).collect();
        let _ = write!(o, "\"targs\":[{}],", targs.join(","));
        let is_pub = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.visibility(d).is_public();
        let _ = write!(o, "\"pub\":{is_pub},");
        if let Some(sp) = body.spread_arg { let _ = write!(o, "\"spread\":{},", sp.as_usize()); }
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.entry(p.local.as_usize()).or_insert(v.name.to_string()); }
            }
        }
        o.push_str("\"locals\":[");
        for (i, l) in body.local_decls.iter_enumerated() {
            if i.as_usize() > 0 { o.push(','); }
            let t = self.ty(l.ty);
            match names.get(&i.as_usize()) {
                Some(n) => { let _ = write!(o, "[{t},{}]", js(n)); }
                None => { let _ = write!(o, "[{t}]"); }
            }
        }
        o.push_str("],\"bbs\":[");
        for (bi, b) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 { o.push(','); }
            let _ = write!(o, "{{\"cl\":{},\"s\":[", b.is_cleanup as u8);
            let mut first = true;
            for s in &b.statements {
                let x = match &s.kind {
                    StatementKind::Assign(a) => format!("[\"=\",{},{},{}]", self.place(&a.0), self.rv(&a.1), self.line(s.source_info.span)),
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{},{}]", self.place(place), variant_index.as_usize(), self.line(s.source_info.span)),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => format!("[\"cno\",{},{},{},{}]", self.op(&c.src), self.op(&c.dst), self.op(&c.count), self.line(s.source_info.span)),
                        _ => continue,
                    },
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    _ => continue,
                };
                if !first { o.push(','); }
                first = false;
                o.push_str(&x);
            }
            o.push_str("],\"t\":");
            let t = b.terminator();
            let ln = self.line(t.source_info.span);
            let uw = |u: &UnwindAction| match u { UnwindAction::Cleanup(b) => b.as_usize().to_string(), _ => "null".into() };
            let x = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&body.local_decls, tcx);
                    let ty = self.ty(ty);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{v}\",{}]", b.as_usize())).collect();
                    format!("{{\"k\":\"switch\",\"d\":{},\"ty\":{ty},\"t\":[{}],\"o\":{},\"l\":{ln}}}", self.op(discr), v.join(","), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "{\"k\":\"ret\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"k\":\"resume\"}".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let ty = place.ty(&body.local_decls, tcx).ty;
                    let ty = self.ty(ty);
                    format!("{{\"k\":\"drop\",\"p\":{},\"ty\":{ty},\"t\":{},\"u\":{},\"l\":{ln}}}", self.place(place), target.as_usize(), uw(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.op(func);
                    let a = self.ops(args.iter().map(|x| &x.node));
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    let at: Vec<String> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); self.ty(t).to_string() }).collect();
                    format!("{{\"k\":\"call\",\"f\":{f},\"a\":{a},\"at\":[{}],\"d\":{},\"dt\":{dt},\"t\":{},\"u\":{},\"l\":{ln}}}", at.join(","), self.place(destination), target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()), uw(unwind))
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (mk, a) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![len.clone(), index.clone()]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow:{op:?}"), vec![a.clone(), b.clone()]),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![a.clone()]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![a.clone()]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![a.clone()]),
                        other => (format!("{:?}", std::mem::discriminant(other)), vec![]),
                    };
                    let a = self.ops(a.iter());
                    format!("{{\"k\":\"assert\",\"c\":{},\"e\":{expected},\"m\":{},\"a\":{a},\"t\":{},\"u\":{},\"l\":{ln}}}", self.op(cond), js(&mk), target.as_usize(), uw(unwind))
                }
                other => format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{other:?}"))),
            };
            o.push_str(&x);
            o.push('}');
        }
        o.push_str("]}");
        o
    }
}

struct Cb { out: String, ws: Vec<String> }
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let mut roots: Vec<DefId> = Vec::new();
        for k in tcx.mir_keys(()) {
            let d = k.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { roots.push(d); }
        }
        let env0 = TypingEnv::fully_monomorphized();
        let mut cx = Cx { tcx, ws: self.ws.clone(), tys: HashMap::new(), ty_out: vec![], insts: HashMap::new(), queue: VecDeque::new(), env: env0 };
        let mut bodies: Vec<String> = Vec::new();
        let mut root_ids = vec![];
        for r in roots {
            let args = ty::GenericArgs::identity_for_item(tcx, r);
            let args = tcx.erase_and_anonymize_regions(args);
            cx.env = TypingEnv::post_analysis(tcx, r);
            let i = Instance { def: InstanceKind::Item(r), args };
            root_ids.push(cx.inst(i).to_string());
            while let Some((id, i, env)) = cx.queue.pop_front() {
                cx.env = env;
                if !tcx.is_mir_available(i.def_id()) { continue; }
                let b = cx.body(id, i);
                bodies.push(b);
            }
        }
        // impls: which trait impls exist on which types (workspace-local)
        let mut impls = vec![];
        for (tr, is) in tcx.all_local_trait_impls(()) {
            for i in is {
                let st = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip();
                impls.push(format!("[{},{},{}]", js(&cx.last(*tr)), js(&cx.ty_short(st)), js(&format!("{st}"))));
            }
        }
        let mut s = String::new();
        let _ = write!(s, "{{\"crate\":{},\"roots\":[{}],\n\"types\":[\n{}\n],\n\"impls\":[{}],\n\"bodies\":[\n{}\n]}}\n", js(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()), root_ids.join(","), cx.ty_out.join(",\n"), impls.join(","), bodies.join(",\n"));
        std::fs::write(&self.out, s).expect("write dump");
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // RUSTC_WRAPPER protocol: argv[1] is the path of rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let mut name = None;
    for w in args.windows(2) { if w[0] == "--crate-name" { name = Some(w[1].clone()); } }
    let ws: Vec<String> = std::env::var("MIRDUMP_WS").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let dump: Vec<String> = std::env::var("MIRDUMP_CRATES").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let dir = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    match name {
        Some(n) if dump.contains(&n) && !dir.is_empty() => {
            let mut cb = Cb { out: format!("{dir}/{n}.json"), ws };
            return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
        }
        _ => {
            struct N;
            impl rustc_driver::Callbacks for N {}
            return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut N));
        }
    }
}
