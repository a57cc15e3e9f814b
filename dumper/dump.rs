// MIR extractor: a rustc driver (rustc_public) that writes, for the crate it compiles,
// the monomorphic MIR of every function reachable from the crate's non-generic functions
// as JSON.  It is used as RUSTC_WORKSPACE_WRAPPER, so it sees exactly one crate (the
// harness crate in /verif/harness, whose path dependencies are /repo's crates, compiled
// with -Zalways-encode-mir; or one of /repo's own binaries).  It drops: spans other than file:line of terminators, user
// type annotations, storage markers, unwind edges, debug info.  Nothing is rewritten.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
extern crate serde_json;
#[macro_use]
extern crate rustc_public;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct D {
    types: BTreeMap<String, Value>,
    tyids: HashMap<Ty, String>,
    fns: BTreeMap<String, Value>,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    allocs: BTreeMap<String, Value>,
    vtables: BTreeMap<String, Value>,
    allow: Vec<String>,
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, rest...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("DV_OUT").unwrap_or_default();
    let want = std::env::var("DV_CRATE").unwrap_or_default();
    let kind = std::env::var("DV_TYPE").unwrap_or_default();
    let is_target = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == want)
        && (kind.is_empty() || args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == kind))
        && !args.iter().any(|a| a.starts_with("--print"));
    let r = if is_target && !out.is_empty() {
        run!(&args, move || go(&out))
    } else {
        run!(&args, || ControlFlow::<(), ()>::Continue(()))
    };
    match r {
        Ok(_) => std::process::exit(0),
        Err(rustc_public::CompilerError::Skipped) => std::process::exit(0),
        Err(_) => std::process::exit(1),
    }
}

fn go(out: &str) -> ControlFlow<(), ()> {
    let allow = std::env::var("DV_ALLOW").unwrap_or_default();
    let mut d = D {
        types: BTreeMap::new(),
        tyids: HashMap::new(),
        fns: BTreeMap::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
        allocs: BTreeMap::new(),
        vtables: BTreeMap::new(),
        allow: allow.split(';').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect(),
    };
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if it.kind() != rustc_public::ItemKind::Fn {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            roots.push(d.want(i));
        }
    }
    while let Some(i) = d.queue.pop_front() {
        d.emit(i);
    }
    let v = json!({"crate": rustc_public::local_crate().name, "roots": roots, "types": d.types,
                   "fns": d.fns, "allocs": d.allocs, "vtables": d.vtables});
    std::fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
    ControlFlow::Continue(())
}

impl D {
    fn want(&mut self, i: Instance) -> String {
        let k = i.mangled_name();
        if self.seen.insert(k.clone()) {
            self.queue.push_back(i);
        }
        k
    }

    fn ty(&mut self, t: Ty) -> String {
        if let Some(s) = self.tyids.get(&t) {
            return s.clone();
        }
        let id = format!("t{}", self.tyids.len());
        self.tyids.insert(t, id.clone());
        let v = self.ty_value(t);
        self.types.insert(id.clone(), v);
        id
    }

    fn args(&mut self, a: &GenericArgs) -> Value {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(json!(self.ty(*t))),
                GenericArgKind::Const(c) => v.push(json!({"const": c.eval_target_usize().ok()})),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        Value::Array(v)
    }

    fn layout(&mut self, t: Ty) -> Value {
        match t.layout() {
            Ok(l) => {
                let s = l.shape();
                let mut m = Map::new();
                m.insert("size".into(), json!(s.size.bits() / 8));
                if let rustc_public::abi::FieldsShape::Arbitrary { offsets } = &s.fields {
                    m.insert("offsets".into(), json!(offsets.iter().map(|o| o.bits() / 8).collect::<Vec<_>>()));
                }
                match &s.variants {
                    rustc_public::abi::VariantsShape::Single { index } => {
                        m.insert("single".into(), json!(index.to_index()));
                    }
                    rustc_public::abi::VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let tsize = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => format!("{:?}", value),
                            rustc_public::abi::Scalar::Union { value } => format!("{:?}", value),
                        };
                        m.insert("tag".into(), json!(tsize));
                        m.insert("tag_field".into(), json!(tag_field));
                        m.insert("enc".into(), match tag_encoding {
                            rustc_public::abi::TagEncoding::Direct => json!("direct"),
                            rustc_public::abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } =>
                                json!({"untagged": untagged_variant.to_index(), "from": niche_variants.start().to_index(),
                                       "to": niche_variants.end().to_index(), "start": niche_start.to_string()}),
                        });
                        m.insert("voffsets".into(), json!(variants.iter().map(|v| v.offsets.iter().map(|o| o.bits() / 8).collect::<Vec<_>>()).collect::<Vec<_>>()));
                    }
                    _ => {}
                }
                Value::Object(m)
            }
            Err(_) => Value::Null,
        }
    }

    fn ty_value(&mut self, t: Ty) -> Value {
        let name = format!("{}", t);
        let k = t.kind();
        let r = match k.rigid() {
            Some(r) => r.clone(),
            None => return json!({"k": "other", "name": name}),
        };
        match r {
            RigidTy::Bool => json!({"k":"bool"}),
            RigidTy::Char => json!({"k":"char"}),
            RigidTy::Int(i) => json!({"k":"int","bits": i.num_bytes()*8, "signed": true}),
            RigidTy::Uint(i) => json!({"k":"int","bits": i.num_bytes()*8, "signed": false}),
            RigidTy::Float(_) => json!({"k":"float","name":name}),
            RigidTy::Str => json!({"k":"str"}),
            RigidTy::Never => json!({"k":"never"}),
            RigidTy::Slice(e) => { let e = self.ty(e); json!({"k":"slice","e":e}) }
            RigidTy::Array(e, n) => { let e = self.ty(e); json!({"k":"array","e":e,"n":n.eval_target_usize().ok()}) }
            RigidTy::RawPtr(e, _) => { let e = self.ty(e); json!({"k":"ptr","e":e}) }
            RigidTy::Ref(_, e, m) => { let e = self.ty(e); json!({"k":"ref","e":e,"mut": m == Mutability::Mut}) }
            RigidTy::Tuple(ts) => { let l = self.layout(t); let v: Vec<_> = ts.iter().map(|x| self.ty(*x)).collect(); json!({"k":"tuple","f":v,"layout":l}) }
            RigidTy::FnDef(def, a) => {
                let inst = Instance::resolve(def, &a).ok();
                let key = inst.map(|i| self.want(i));
                let av = self.args(&a);
                json!({"k":"fndef","def":def.name(),"fn":key,"args":av})
            }
            RigidTy::FnPtr(_) => json!({"k":"fnptr","name":name}),
            RigidTy::Closure(def, a) => {
                let b = Instance::resolve_closure(def, &a, ClosureKind::FnOnce).ok();
                let _ = b;
                let kinds = [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce];
                // the native body is the instance whose def is the closure itself (Item kind)
                let mut key = None;
                for kd in kinds {
                    if let Ok(i) = Instance::resolve_closure(def, &a, kd) {
                        if i.kind == InstanceKind::Item {
                            key = Some(self.want(i));
                            break;
                        }
                    }
                }
                let ups = {
                    // upvar tuple type is the last generic arg
                    match a.0.last() { Some(GenericArgKind::Type(t)) => { let tt = *t; json!(self.ty(tt)) } _ => Value::Null }
                };
                let l = self.layout(t);
                json!({"k":"closure","name":name,"fn":key,"ups":ups,"layout":l})
            }
            RigidTy::Dynamic(..) => json!({"k":"dyn","name":name,"trait": k.trait_principal().map(|p| p.value.def_id.name())}),
            RigidTy::Adt(def, a) => {
                let l = self.layout(t);
                let av = self.args(&a);
                let kind = match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                let mut vs = vec![];
                for v in def.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&a);
                        fs.push(json!({"n": f.name.to_string(), "t": self.ty(ft)}));
                    }
                    let discr = if kind == "enum" { json!(def.discriminant_for_variant(v.idx()).val.to_string()) } else { Value::Null };
                    vs.push(json!({"n": v.name(), "f": fs, "d": discr}));
                }
                json!({"k":"adt","kind":kind,"def":def.name(),"name":name,"args":av,"v":vs,"layout":l,"box":def.is_box()})
            }
            _ => json!({"k":"other","name":name}),
        }
    }

    fn allowed(&self, i: &Instance, defname: &str, full: &str) -> bool {
        let krate = i.def.krate().name;
        if krate == "core" || krate == "alloc" || krate == "std" {
            for a in &self.allow {
                if let Some(x) = a.strip_prefix('~') {
                    if defname.contains(x) {
                        return true;
                    }
                } else if defname.starts_with(a.as_str()) || full.starts_with(a.as_str()) {
                    return true;
                }
            }
            return false;
        }
        for a in &self.allow {
            if let Some(x) = a.strip_prefix("crate:") {
                if krate == x {
                    return true;
                }
            }
            if defname.starts_with(a.as_str()) || full.starts_with(a.as_str()) {
                return true;
            }
        }
        i.def.krate().is_local
    }

    /// the Display::fmt instance a to_string instance ends up calling
    fn find_display(i: &Instance, depth: usize) -> Option<Instance> {
        let b = i.body()?;
        for bb in &b.blocks {
            if let TerminatorKind::Call { func, .. } = &bb.terminator.kind {
                if let Ok(t) = func.ty(b.locals()) {
                    if let Some((fd, a)) = t.kind().fn_def() {
                        if let Ok(x) = Instance::resolve(fd, a) {
                            let n = x.name();
                            if n.contains("std::fmt::Display") && n.ends_with("::fmt") || n.contains("impl std::fmt::Display for") { return Some(x); }
                            if depth < 2 && n.contains("spec_to_string") {
                                if let Some(r) = Self::find_display(&x, depth + 1) { return Some(r); }
                            }
                        }
                    }
                }
            }
        }
        None
    }

    fn emit(&mut self, i: Instance) {
        let key = i.mangled_name();
        let defname = i.def.name();
        let full = i.name();
        let av = self.args(&i.args());
        let ok = i.kind == InstanceKind::Item && self.allowed(&i, &defname, &full)
            || i.kind == InstanceKind::Shim;
        let body = if ok { i.body() } else { None };
        let kind = match i.kind {
            InstanceKind::Item => json!("item"),
            InstanceKind::Intrinsic => json!("intrinsic"),
            InstanceKind::Virtual { idx } => json!({"virtual": idx}),
            InstanceKind::Shim => json!("shim"),
            _ => json!("other"),
        };
        let hb = i.kind == InstanceKind::Item && i.has_body();
        let bv = match body {
            Some(b) if b.blocks.len() < 4000 => self.body(&b),
            _ => Value::Null,
        };
        // for formatter constructors: which fmt fn do they wrap
        let mut fmtfn = Value::Null;
        if full.contains("fmt::rt::Argument") && full.contains("::new_") {
            if let Some(b) = i.body() {
                for l in b.locals() {
                    if let Some((fd, a)) = l.ty.kind().fn_def() {
                        if let Ok(x) = Instance::resolve(fd, a) { fmtfn = json!(self.want(x)); }
                    }
                }
                for bb in &b.blocks {
                    for s in &bb.statements {
                        if let StatementKind::Assign(_, Rvalue::Cast(_, Operand::Constant(c), _)) = &s.kind {
                            if let Some((fd, a)) = c.const_.ty().kind().fn_def() {
                                if let Ok(x) = Instance::resolve(fd, a) { fmtfn = json!(self.want(x)); }
                            }
                        }
                    }
                }
            }
        }
        if defname.ends_with("std::string::ToString>::to_string") {
            if let Some(x) = Self::find_display(&i, 0) { fmtfn = json!(self.want(x)); }
        }
        let span = i.def.span();
        let file = span.get_filename();
        let line = span.get_lines().start_line;
        self.fns.insert(key, json!({"name": full, "def": defname, "krate": i.def.krate().name, "args": av,
            "kind": kind, "has_body": hb, "body": bv, "fmtfn": fmtfn, "file": file, "line": line}));
    }

    fn body(&mut self, b: &Body) -> Value {
        let locals: Vec<_> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let nargs = b.arg_locals().len();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r, b);
                        st.push(json!(["=", p, r]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(json!(["setd", p, variant_index.to_index()]));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        let o = self.operand(o);
                        st.push(json!(["assume", o]));
                    }
                    StatementKind::Intrinsic(_) => st.push(json!(["unsupported", "copy_nonoverlapping"])),
                    _ => {}
                }
            }
            let sp = bb.terminator.source_info.span;
            let line = format!("{}:{}", sp.get_filename(), sp.get_lines().start_line);
            let t = self.term(&bb.terminator.kind);
            blocks.push(json!({"s": st, "t": t, "l": line}));
        }
        json!({"locals": locals, "nargs": nargs, "blocks": blocks, "spread": b.spread_arg()})
    }

    fn term(&mut self, t: &TerminatorKind) -> Value {
        use TerminatorKind::*;
        match t {
            Goto { target } => json!({"k":"goto","to":target}),
            SwitchInt { discr, targets } => {
                let o = self.operand(discr);
                let br: Vec<_> = targets.branches().map(|(v, b)| json!([v.to_string(), b])).collect();
                json!({"k":"switch","on":o,"br":br,"else":targets.otherwise()})
            }
            Resume => json!({"k":"resume"}),
            Abort => json!({"k":"abort"}),
            Return => json!({"k":"return"}),
            Unreachable => json!({"k":"unreachable"}),
            Drop { place, target, .. } => { let p = self.place(place); json!({"k":"drop","p":p,"to":target}) }
            Call { func, args, destination, target, .. } => {
                let f = self.operand(func);
                let mut callee = Value::Null;
                if let Operand::Constant(c) = func {
                    if let Some((fd, a)) = c.const_.ty().kind().fn_def() {
                        if let Ok(i) = Instance::resolve(fd, a) {
                            callee = json!(self.want(i));
                        } else {
                            callee = json!(format!("?{}", fd.name()));
                        }
                    }
                }
                let av: Vec<_> = args.iter().map(|a| self.operand(a)).collect();
                let dst = self.place(destination);
                json!({"k":"call","f":f,"callee":callee,"args":av,"dst":dst,"to":target})
            }
            Assert { cond, expected, msg, target, .. } => {
                let o = self.operand(cond);
                let m = match msg {
                    AssertMessage::BoundsCheck { len, index } => { let l = self.operand(len); let x = self.operand(index); json!(["bounds", l, x]) }
                    AssertMessage::Overflow(op, ..) => json!(["overflow", format!("{:?}", op)]),
                    AssertMessage::OverflowNeg(_) => json!(["overflow", "Neg"]),
                    AssertMessage::DivisionByZero(_) => json!(["divzero"]),
                    AssertMessage::RemainderByZero(_) => json!(["remzero"]),
                    other => json!(["other", format!("{:?}", other)]),
                };
                json!({"k":"assert","cond":o,"exp":expected,"msg":m,"to":target})
            }
            InlineAsm { .. } => json!({"k":"asm"}),
        }
    }

    fn place(&mut self, p: &Place) -> Value {
        let mut pr = vec![];
        for e in &p.projection {
            pr.push(match e {
                ProjectionElem::Deref => json!(["*"]),
                ProjectionElem::Field(i, t) => json!([".", i, self.ty(*t)]),
                ProjectionElem::Index(l) => json!(["[]", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["ci", offset, min_length, from_end]),
                ProjectionElem::Subslice { from, to, from_end } => json!(["sub", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["dc", v.to_index()]),
                ProjectionElem::OpaqueCast(t) => json!(["oc", self.ty(*t)]),
            });
        }
        json!([p.local, pr])
    }

    fn operand(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!({"c": self.place(p)}),
            Operand::Move(p) => json!({"m": self.place(p)}),
            Operand::Constant(c) => json!({"k": self.konst(&c.const_)}),
            Operand::RuntimeChecks(r) => json!({"rc": format!("{:?}", r)}),
        }
    }

    fn konst(&mut self, c: &MirConst) -> Value {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => json!({"t": t, "a": self.alloc(a)}),
            ConstantKind::ZeroSized => json!({"t": t, "zst": true}),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => json!({"t": t, "a": self.alloc(a)}),
                TyConstKind::ZSTValue(_) => json!({"t": t, "zst": true}),
                _ => json!({"t": t, "n": tc.eval_target_usize().ok()}),
            },
            other => json!({"t": t, "unsupported": format!("{:?}", other)}),
        }
    }

    fn alloc(&mut self, a: &Allocation) -> Value {
        let bytes: Vec<u8> = a.bytes.iter().map(|b| b.unwrap_or(0)).collect();
        let mut pv = vec![];
        for (off, p) in &a.provenance.ptrs {
            let id = format!("{:?}", p.0);
            pv.push(json!([off, id]));
            if !self.allocs.contains_key(&id) {
                self.allocs.insert(id.clone(), Value::Null);
                let v = match GlobalAlloc::from(p.0) {
                    GlobalAlloc::Memory(m) => json!({"mem": self.alloc(&m)}),
                    GlobalAlloc::Function(i) => json!({"fn": self.want(i)}),
                    GlobalAlloc::Static(s) => {
                        let ty = self.ty(s.ty());
                        let init = s.eval_initializer().ok().map(|m| self.alloc(&m));
                        json!({"static": s.name(), "ty": ty, "mem": init})
                    }
                    GlobalAlloc::VTable(t, tr) => {
                        let ty = self.ty(t);
                        if let Some(tr) = &tr { self.vtable(t, tr.clone()); }
                        json!({"vtable": ty, "trait": tr.map(|x| x.value.def_id.name())})
                    }
                    _ => json!({"other": true}),
                };
                self.allocs.insert(id, v);
            }
        }
        json!({"b": hex(&bytes), "p": pv})
    }

    fn vtable(&mut self, t: Ty, tr: Binder<ExistentialTraitRef>) {
        let k = format!("{}|{}", self.ty(t), tr.value.def_id.name());
        if self.vtables.contains_key(&k) { return; }
        self.vtables.insert(k.clone(), Value::Null);
        let tref = tr.value.with_self_ty(t);
        let mut es = vec![];
        for e in tref.vtable_entries() {
            es.push(match e {
                VtblEntry::Method(i) => json!(self.want(i)),
                _ => Value::Null,
            });
        }
        self.vtables.insert(k, json!(es));
    }

    fn unsize(&mut self, from: Ty, to: Ty) {
        // find (T, dyn Trait) pair under matching pointers / Box / Rc
        let (fk, tk) = (from.kind(), to.kind());
        match (fk.rigid(), tk.rigid()) {
            (Some(RigidTy::Ref(_, a, _)), Some(RigidTy::Ref(_, b, _)))
            | (Some(RigidTy::RawPtr(a, _)), Some(RigidTy::RawPtr(b, _))) => self.unsize(*a, *b),
            (Some(RigidTy::Adt(d1, a1)), Some(RigidTy::Adt(d2, a2))) if d1 == d2 => {
                if let (Some(GenericArgKind::Type(a)), Some(GenericArgKind::Type(b))) = (
                    a1.0.iter().find(|g| matches!(g, GenericArgKind::Type(_))),
                    a2.0.iter().find(|g| matches!(g, GenericArgKind::Type(_))),
                ) {
                    let (a, b) = (*a, *b);
                    self.unsize(a, b)
                }
            }
            (_, Some(RigidTy::Dynamic(..))) => {
                if let Some(p) = tk.trait_principal() {
                    self.vtable(from, p);
                }
            }
            _ => {}
        }
    }

    fn rvalue(&mut self, r: &Rvalue, b: &Body) -> Value {
        match r {
            Rvalue::AddressOf(_, p) => json!(["addr", self.place(p)]),
            Rvalue::Ref(_, _, p) => json!(["ref", self.place(p)]),
            Rvalue::Reborrow(_, _, p) => json!(["use", {"c": self.place(p)}]),
            Rvalue::Aggregate(k, ops) => {
                let ov: Vec<_> = ops.iter().map(|o| self.operand(o)).collect();
                let kv = match k {
                    AggregateKind::Array(t) => json!(["array", self.ty(*t)]),
                    AggregateKind::Tuple => json!(["tuple"]),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        json!(["adt", self.ty(t), v.to_index(), f])
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        json!(["closure", self.ty(t)])
                    }
                    AggregateKind::RawPtr(t, _) => json!(["rawptr", self.ty(*t)]),
                    _ => json!(["unsupported"]),
                };
                json!(["agg", kv, ov])
            }
            Rvalue::BinaryOp(op, x, y) => { let t = x.ty(b.locals()).ok().map(|t| self.ty(t)); json!(["bin", format!("{:?}", op), self.operand(x), self.operand(y), t]) }
            Rvalue::CheckedBinaryOp(op, x, y) => { let t = x.ty(b.locals()).ok().map(|t| self.ty(t)); json!(["cbin", format!("{:?}", op), self.operand(x), self.operand(y), t]) }
            Rvalue::UnaryOp(op, x) => { let t = x.ty(b.locals()).ok().map(|t| self.ty(t)); json!(["un", format!("{:?}", op), self.operand(x), t]) }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(b.locals()).ok();
                if let CastKind::PointerCoercion(PointerCoercion::Unsize) = k {
                    if let Some(f) = from { self.unsize(f, *t); }
                }
                let f = from.map(|f| self.ty(f));
                json!(["cast", format!("{:?}", k), self.operand(o), self.ty(*t), f])
            }
            Rvalue::CopyForDeref(p) => json!(["use", {"c": self.place(p)}]),
            Rvalue::Discriminant(p) => { let t = p.ty(b.locals()).ok().map(|t| self.ty(t)); json!(["discr", self.place(p), t]) }
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Repeat(o, n) => json!(["repeat", self.operand(o), n.eval_target_usize().ok()]),
            Rvalue::ThreadLocalRef(_) => json!(["unsupported", "tls"]),
            Rvalue::Use(o, _) => json!(["use", self.operand(o)]),
        }
    }
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b { s.push_str(&format!("{:02x}", x)); }
    s
}
