//! mirdump: a rustc driver which writes, as JSON, the resolved MIR reachable from the root
//! functions of the crate it compiles (see /verif/DESIGN.md, "Extraction").
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{
    self, AggregateKind, AssertKind, Body, CastKind, ConstValue, Operand, Place, ProjectionElem,
    Rvalue, StatementKind, TerminatorKind,
};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn u(x: usize) -> J {
    J::U(x as u128)
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => write!(o, "{i}").unwrap(),
            J::U(i) => write!(o, "{i}").unwrap(),
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{k}\":").unwrap();
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- context
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<(Ty<'tcx>, usize), usize>,
    type_q: VecDeque<(usize, Ty<'tcx>, usize)>,
    type_out: Vec<J>,
    envs: Vec<ty::TypingEnv<'tcx>>,
    env_ids: HashMap<ty::ParamEnv<'tcx>, usize>,
    insts: HashMap<(Instance<'tcx>, usize), usize>,
    inst_q: VecDeque<(usize, Instance<'tcx>, usize)>,
    inst_out: Vec<(usize, J)>,
    next_inst: usize,
    promoted: HashSet<(usize, usize)>,
    models: HashMap<String, DefId>,
}

/// Library code whose MIR is handed to the analysis; everything else outside /repo and the harness
/// is described by the analysis' own models.
fn inline_ok(path: &str, krate: &str, local: bool) -> bool {
    if local || krate == "ssz" {
        return true;
    }
    const OK: &[&str] = &[
        "core::option", "core::result", "core::iter", "core::ops", "core::cmp", "core::convert",
        "core::bool", "core::clone", "core::default", "itertools", "core::array::iter", "core::borrow",
        "core::mem", "core::slice::cmp", "core::tuple", "core::num", "core::slice", "core::array", "core::hash",
        "alloc::vec", "alloc::slice", "smallvec", "serde_utils", "arbitrary", "alloc::sync", "core::str", "alloc::string", "alloy_primitives",
        "alloc::borrow", "bytes", "core::ascii", "core::char", "hex",
    ];
    let p = path.trim_start_matches('<').trim_start_matches("impl ").trim_start_matches('&');
    OK.iter().any(|x| p.starts_with(x)) || (krate == "core" && path.starts_with('<')) || path.contains(" as core::iter") || path.contains(" as itertools")
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}")))
    }
    fn env_id(&mut self, e: ty::TypingEnv<'tcx>) -> usize {
        let pe = e.param_env;
        if let Some(i) = self.env_ids.get(&pe) {
            return *i;
        }
        let i = self.envs.len();
        self.envs.push(e);
        self.env_ids.insert(pe, i);
        i
    }
    fn norm(&self, t: Ty<'tcx>, env: usize) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx
            .try_normalize_erasing_regions(
                self.envs[env],
                rustc_middle::ty::Unnormalized::new(t),
            )
            .unwrap_or(t)
    }
    fn ty(&mut self, t: Ty<'tcx>, env: usize) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        // types without parameters mean the same in every environment
        let env2 = if t.has_param() { env } else { 0 };
        if let Some(i) = self.types.get(&(t, env2)) {
            return u(*i);
        }
        let i = self.types.len();
        self.types.insert((t, env2), i);
        self.type_out.push(J::Null);
        self.type_q.push_back((i, t, env2));
        u(i)
    }
    fn cnst(&mut self, c: ty::Const<'tcx>, env: usize) -> J {
        let c2 = self.tcx.erase_and_anonymize_regions(c);
        let c2 = self
            .tcx
            .try_normalize_erasing_regions(self.envs[env], rustc_middle::ty::Unnormalized::new(c2))
            .unwrap_or(c2);
        if let Some(v) = c2.try_to_target_usize(self.tcx) {
            return J::U(v as u128);
        }
        if let Some(v) = c2.try_to_leaf() {
            return J::U(v.to_bits_unchecked());
        }
        match c2.kind() {
            ty::ConstKind::Param(p) => J::O(vec![("param", s(p.name.to_string()))]),
            _ => J::O(vec![("other", s(format!("{c2:?}")))]),
        }
    }
    fn gargs(&mut self, args: GenericArgsRef<'tcx>, env: usize) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(J::O(vec![("t", self.ty(t, env))]));
            } else if let Some(c) = a.as_const() {
                v.push(J::O(vec![("c", self.cnst(c, env))]));
            }
        }
        J::A(v)
    }
    fn inst(&mut self, i: Instance<'tcx>, env: usize) -> usize {
        let env = if i.args.has_param() { env } else { 0 };
        if let Some(k) = self.insts.get(&(i, env)) {
            return *k;
        }
        let k = self.next_inst;
        self.next_inst += 1;
        self.insts.insert((i, env), k);
        self.inst_q.push_back((k, i, env));
        k
    }
    /// Library functions with loops over raw memory or specialised bodies are replaced by the
    /// plain-Rust descriptions in harness/src/models.rs.
    fn redirect(
        &self,
        d: DefId,
        args: GenericArgsRef<'tcx>,
        env: usize,
    ) -> Option<(&'static str, Vec<ty::GenericArg<'tcx>>)> {
        let tcx = self.tcx;
        let all: Vec<_> = args.iter().filter(|x| x.as_region().is_none()).collect();
        let Some(tr) = tcx.trait_of_assoc(d) else {
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                return None;
            }
            let p = self.path(d);
            return match p.as_str() {
                "core::iter::sources::repeat_n::repeat_n" => Some(("repeat_n", all)),
                "alloc::vec::Vec::<T, A>::resize_with" => Some(("vec_resize_with", vec![all[0], all[2]])),
                "core::slice::<impl [T]>::fill_with" => Some(("slice_fill_with", all)),
                "core::slice::<impl [T]>::contains" => Some(("slice_contains", all)),
                _ => None,
            };
        };
        let trp = self.path(tr);
        let name = tcx.item_name(d).to_string();
        let selft = self.norm(args.types().next()?, env);
        if matches!(selft.kind(), ty::Param(_)) {
            return None;
        }
        let adt = match selft.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            _ => String::new(),
        };
        let selfargs: Vec<_> = match selft.kind() {
            ty::Adt(_, a) => a.iter().filter(|x| x.as_region().is_none()).collect(),
            _ => vec![],
        };
        const ITER: &[(&str, &str)] = &[
            ("fold", "iter_fold"), ("try_fold", "iter_try_fold"), ("for_each", "iter_for_each"),
            ("try_for_each", "iter_try_for_each"), ("all", "iter_all"), ("any", "iter_any"),
            ("find", "iter_find"), ("find_map", "iter_find_map"), ("position", "iter_position"),
            ("rposition", "iter_rposition"), ("count", "iter_count"), ("last", "iter_last"),
            ("nth", "iter_nth"), ("zip", "iter_zip"), ("max", "iter_max"), ("min", "iter_min"),
            ("skip", "iter_skip"), ("step_by", "iter_step_by"), ("eq", "iter_eq"), ("reduce", "iter_reduce"),
        ];
        const DITER: &[(&str, &str)] =
            &[("rfold", "iter_rfold"), ("rfind", "iter_rfind"), ("nth_back", "iter_nth_back")];
        let trp = trp.as_str();
        let m = |x: &'static str| Some((x, all.clone()));
        if trp.ends_with("iter::traits::iterator::Iterator") || trp == "core::iter::Iterator" {
            if name == "next" && adt.ends_with("zip::Zip") {
                return Some(("zip_next", selfargs));
            }
            if name == "size_hint" && adt.ends_with("zip::Zip") {
                return Some(("zip_size_hint", selfargs));
            }
            if name == "next" && adt.ends_with("skip::Skip") {
                return Some(("skip_next", selfargs));
            }
            if name == "size_hint" && adt.ends_with("skip::Skip") {
                return Some(("skip_size_hint", selfargs));
            }
            if name == "next" && adt.ends_with("step_by::StepBy") {
                return Some(("step_by_next", selfargs));
            }
            if name == "size_hint" && adt.ends_with("step_by::StepBy") {
                return Some(("step_by_size_hint", selfargs));
            }
            if name == "next" && adt.ends_with("repeat_n::RepeatN") {
                return Some(("repeat_n_next", selfargs));
            }
            if name == "size_hint" && adt.ends_with("repeat_n::RepeatN") {
                return Some(("repeat_n_size_hint", selfargs));
            }
            if name == "next" && adt.ends_with("option::IntoIter") {
                return Some(("opt_iter_next", selfargs));
            }
            return ITER.iter().find(|x| x.0 == name).and_then(|x| m(x.1));
        }
        if trp.ends_with("double_ended::DoubleEndedIterator") || trp == "core::iter::DoubleEndedIterator" {
            if name == "next_back" && adt.ends_with("zip::Zip") {
                return Some(("zip_next_back", selfargs));
            }
            if name == "next_back" && adt.ends_with("skip::Skip") {
                return Some(("skip_next_back", selfargs));
            }
            return DITER.iter().find(|x| x.0 == name).and_then(|x| m(x.1));
        }
        if trp.ends_with("::FromIterator") && name == "from_iter" {
            return match adt.as_str() {
                "alloc::vec::Vec" => m("vec_from_iter"),
                "alloc::string::String" => {
                    let item = self.norm(args.types().nth(1)?, env);
                    m(if item == tcx.types.char { "string_from_iter" } else { "string_from_iter_s" })
                }
                "smallvec::SmallVec" => m("smallvec_from_iter"),
                "core::result::Result" => {
                    let mut v = all.clone();
                    v.extend(selfargs);
                    Some(("result_from_iter", v))
                }
                "core::option::Option" => {
                    let mut v = all.clone();
                    v.extend(selfargs);
                    Some(("option_from_iter", v))
                }
                x if x.ends_with("BTreeMap") => {
                    let mut v = all.clone();
                    v.extend(selfargs.into_iter().take(2));
                    Some(("btreemap_from_iter", v))
                }
                x if x.ends_with("BTreeSet") => m("btreeset_from_iter"),
                _ => None,
            };
        }
        if trp == "core::hash::Hash" && name == "hash_slice" && selft == tcx.types.u8 {
            return m("hash_slice_u8");
        }
        if trp.ends_with("::Extend") && name == "extend" {
            let item = args.types().nth(1)?;
            return match adt.as_str() {
                "alloc::vec::Vec" => {
                    let own = selft.walk().nth(1).and_then(|x| x.as_type());
                    let same = own.is_some_and(|t| {
                        tcx.erase_and_anonymize_regions(t) == tcx.erase_and_anonymize_regions(self.norm(item, env))
                    });
                    if same {
                        m("vec_extend")
                    } else {
                        let ty::Ref(_, inner, _) = item.kind() else { return None };
                        let mut v = all.clone();
                        v.push((*inner).into());
                        Some(("vec_extend_ref", v))
                    }
                }
                "smallvec::SmallVec" => m("smallvec_extend"),
                "alloc::string::String" => {
                    let item = self.norm(item, env);
                    m(if item == tcx.types.char { "string_extend" } else { "string_extend_s" })
                }
                x if x.ends_with("BTreeMap") => {
                    let mut v = all.clone();
                    v.extend(selfargs.into_iter().take(2));
                    Some(("btreemap_extend", v))
                }
                x if x.ends_with("BTreeSet") => m("btreeset_extend"),
                _ => None,
            };
        }
        None
    }
    /// Whether the receiver is, or is made from, an iterator of the analysed crates with its own version of a provided
    /// method: the descriptions of the provided methods do not apply then.
    fn overridden(&mut self, args: GenericArgsRef<'tcx>, env: usize) -> bool {
        const OWN: &[&str] = &["next", "next_back", "size_hint", "len"];
        let tcx = self.tcx;
        let Some(t) = args.types().next() else { return false };
        let selft = self.norm(t, env);
        let traits = [tcx.get_diagnostic_item(rustc_span::sym::Iterator), tcx.get_diagnostic_item(rustc_span::Symbol::intern("DoubleEndedIterator"))];
        for g in selft.walk() {
            let Some(t) = g.as_type() else { continue };
            let ty::Adt(a, _) = t.kind() else { continue };
            if !tcx.crate_name(a.did().krate).as_str().contains("ssz") {
                continue;
            }
            for tr in traits.iter().flatten() {
                for im in tcx.non_blanket_impls_for_ty(*tr, t) {
                    let mut items = tcx.associated_items(im).in_definition_order();
                    if items.any(|i| matches!(i.kind, ty::AssocKind::Fn { .. }) && !OWN.contains(&i.name().as_str())) {
                        return true;
                    }
                }
            }
        }
        false
    }
    /// Description of a callable (def, args): its path, its arguments, what it resolves to.
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: usize) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", s(self.path(d))), ("args", self.gargs(args, env))];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            o.push(("name", s(tcx.item_name(d).to_string())));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", s(self.path(tcx.parent(d)))));
            let v = tcx.parent(d);
            let (adt, idx) = match tcx.def_kind(v) {
                DefKind::Variant => {
                    let adt = tcx.adt_def(tcx.parent(v));
                    (adt, adt.variant_index_with_id(v).as_usize())
                }
                _ => (tcx.adt_def(v), 0),
            };
            let t = Ty::new_adt(tcx, adt, args);
            o.push(("ctor_ty", self.ty(t, env)));
            o.push(("ctor_variant", u(idx)));
            return J::O(o);
        }
        if let Some((name, margs)) = self.redirect(d, args, env).filter(|_| !self.overridden(args, env)) {
            let fits = |d: &DefId| tcx.generics_of(*d).count() == margs.len();
            if let Some(md) = self.models.get(name).copied().filter(fits) {
                let margs = tcx.mk_args(&margs);
                let inst = Instance::new_raw(md, tcx.erase_and_anonymize_regions(margs));
                let k = self.inst(inst, env);
                o.push(("model", s(name)));
                o.push(("rpath", s(self.path(md))));
                o.push(("inst", u(k)));
                return J::O(o);
            }
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.envs[env], d, args) {
            o.push(("rpath", s(self.path(inst.def_id()))));
            if let InstanceKind::Item(_) = inst.def {
                let k = self.inst(inst, env);
                o.push(("inst", u(k)));
                let ra = self.gargs(inst.args, env);
                o.push(("rargs", ra));
            } else {
                o.push(("kind", s(format!("{:?}", inst.def).split('(').next().unwrap())));
            }
        }
        J::O(o)
    }
    fn flush_types(&mut self) {
        while let Some((i, t, env)) = self.type_q.pop_front() {
            let j = self.ty_json(t, env);
            self.type_out[i] = j;
        }
    }
    fn ty_json(&mut self, t: Ty<'tcx>, env: usize) -> J {
        let tcx = self.tcx;
        let mut o = vec![("s", s(self.tystr(t)))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) | ty::Uint(_) => {
                o.push(("k", s("int")));
            }
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                let path = self.path(def.did());
                let krate = tcx.crate_name(def.did().krate).to_string();
                o.push(("path", s(path.clone())));
                o.push(("crate", s(krate.clone())));
                o.push(("enum", J::B(def.is_enum())));
                let ga = self.gargs(args, env);
                o.push(("args", ga));
                const OPAQUE: &[&str] = &[
                    "alloc::vec::Vec", "smallvec::SmallVec", "alloc::string::String", "alloc::sync::Arc",
                    "alloc::boxed::Box", "alloc::rc::Rc", "alloc::collections", "core::fmt", "core::ptr",
                    "core::mem", "bytes::", "core::sync", "std::collections", "alloc::raw_vec", "std::thread", "core::task",
                ];
                if (!OPAQUE.iter().any(|x| path.starts_with(x)) || path.ends_with("btree::map::entry::Entry")) && !def.is_union() {
                    let mut vs = vec![];
                    let discrs: Vec<_> = if def.is_enum() {
                        def.discriminants(tcx)
                            .map(|(_, d)| match d.ty.kind() {
                                ty::Int(it) => {
                                    let sh = 128 - it.bit_width().unwrap_or(64) as u32;
                                    ((d.val << sh) as i128) >> sh
                                }
                                _ => d.val as i128,
                            })
                            .collect()
                    } else {
                        vec![0i128]
                    };
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_normalization();
                            let ft = self.norm(ft, env);
                            let tj = self.ty(ft, env);
                            fs.push(J::O(vec![("n", s(f.name.to_string())), ("t", tj)]));
                        }
                        vs.push(J::O(vec![
                            ("n", s(v.name.to_string())),
                            ("d", J::I(discrs[vi.as_usize()])),
                            ("f", J::A(fs)),
                        ]));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            ty::Array(e, n) => {
                o.push(("k", s("array")));
                o.push(("e", self.ty(e, env)));
                o.push(("n", self.cnst(n, env)));
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                o.push(("e", self.ty(e, env)));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                o.push(("e", self.ty(e, env)));
                o.push(("m", J::B(m.is_mut())));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                o.push(("e", self.ty(e, env)));
                o.push(("m", J::B(m.is_mut())));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let args = args.skip_binder();
                let c = self.callee(d.into(), args, env);
                o.push(("fn", c));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                let inst = Instance::new_raw(d.into(), args);
                let k = self.inst(inst, env);
                o.push(("inst", u(k)));
                let ups: Vec<_> = args.as_closure().upvar_tys().iter().collect();
                let ups: Vec<_> = ups.into_iter().map(|t| self.ty(t, env)).collect();
                o.push(("upvars", J::A(ups)));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<_> = ts.iter().map(|t| self.ty(t, env)).collect();
                o.push(("e", J::A(v)));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("n", s(p.name.to_string())));
            }
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        J::O(o)
    }

    // ------------------------------------------------------------ MIR
    fn place(&mut self, p: &Place<'tcx>, env: usize) -> J {
        let mut v = vec![u(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let tj = self.ty(t, env);
                    J::A(vec![s("f"), u(f.as_usize()), tj])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), u(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), u(offset as usize), u(min_length as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), u(from as usize), u(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), u(v.as_usize())]),
                _ => J::A(vec![s("oc")]),
            });
        }
        J::A(v)
    }
    fn scalar(&mut self, v: rustc_middle::mir::interpret::Scalar, t: Ty<'tcx>, env: usize) -> J {
        use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
        match v {
            Scalar::Int(i) => {
                let bits = i.to_bits_unchecked();
                match t.kind() {
                    ty::Int(it) => {
                        let w = it.bit_width().unwrap_or(64) as u32;
                        let sh = 128 - w;
                        J::O(vec![("int", J::I(((bits << sh) as i128) >> sh))])
                    }
                    ty::Bool => J::O(vec![("bool", J::B(bits != 0))]),
                    ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                        let tj = self.ty(t, env);
                        J::O(vec![("scalar_adt", J::U(bits)), ("ty", tj)])
                    }
                    _ => J::O(vec![("int", J::U(bits))]),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                let aid = prov.alloc_id();
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let Some(GlobalAlloc::Memory(_)) = self.tcx.try_get_global_alloc(aid) {
                        let cv = ConstValue::Indirect { alloc_id: aid, offset: off };
                        let r = self.cval(cv, *inner, env);
                        return J::O(vec![("ref", r)]);
                    }
                }
                J::O(vec![("opaque", s("ptr"))])
            }
        }
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, env: usize) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => return J::O(vec![("zst", self.ty(t, env))]),
            ConstValue::Scalar(sc) if !matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) => {
                return self.scalar(sc, t, env)
            }
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    let bytes: Vec<J> = b.iter().map(|x| u(*x as usize)).collect();
                    let is_str = matches!(t.kind(), ty::Ref(_, e, _) if e.is_str());
                    return J::O(vec![(if is_str { "str" } else { "bytes" }, J::A(bytes))]);
                }
                return J::O(vec![("opaque", s("slice"))]);
            }
            _ => {}
        }
        if let ConstValue::Indirect { alloc_id, offset } = v {
            // read integers / references out of the allocation
            let layout = match tcx.layout_of(self.envs[env].as_query_input(t)) {
                Ok(l) => l,
                Err(_) => return J::O(vec![("opaque", s("layout"))]),
            };
            if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) =
                tcx.try_get_global_alloc(alloc_id)
            {
                let a = a.inner();
                match t.kind() {
                    ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                        let r = rustc_middle::mir::interpret::AllocRange { start: offset, size: layout.size };
                        if let Ok(sc) = a.read_scalar(&tcx, r, false) {
                            return self.scalar(sc, t, env);
                        }
                    }
                    ty::Ref(_, inner, _) => {
                        let r = rustc_middle::mir::interpret::AllocRange {
                            start: offset,
                            size: tcx.data_layout.pointer_size(),
                        };
                        if let Ok(sc) = a.read_scalar(&tcx, r, true) {
                            if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
                                let r2 = rustc_middle::mir::interpret::AllocRange {
                                    start: offset + tcx.data_layout.pointer_size(),
                                    size: tcx.data_layout.pointer_size(),
                                };
                                if let (rustc_middle::mir::interpret::Scalar::Ptr(p, _), Ok(l)) =
                                    (sc, a.read_scalar(&tcx, r2, false))
                                {
                                    let (prov, _) = p.prov_and_relative_offset();
                                    if let rustc_middle::mir::interpret::Scalar::Int(l) = l {
                                        let cv = ConstValue::Slice {
                                            alloc_id: prov.alloc_id(),
                                            meta: l.to_bits_unchecked() as u64,
                                        };
                                        return self.cval(cv, t, env);
                                    }
                                }
                            }
                            return self.scalar(sc, t, env);
                        }
                    }
                    ty::Array(e, n) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                        if let Some(n) = n.try_to_target_usize(tcx) {
                            let st = offset.bytes() as usize;
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(st..st + n as usize);
                            return J::O(vec![(
                                "array",
                                J::A(b.iter().map(|x| J::O(vec![("int", u(*x as usize))])).collect()),
                            )]);
                        }
                    }
                    _ => {}
                }
            }
        }
        if t.has_param() {
            return J::O(vec![("opaque", s("generic const value"))]);
        }
        let structured = match t.kind() {
            ty::Array(..) | ty::Tuple(..) => true,
            ty::Adt(def, _) => !def.is_union() && !def.variants().is_empty(),
            _ => false,
        };
        let d = if structured { tcx.try_destructure_mir_constant_for_user_output(v, t) } else { None };
        match d {
            Some(d) => {
                let fs: Vec<J> = d.fields.iter().map(|(c, t)| self.cval(*c, *t, env)).collect();
                let tj = self.ty(t, env);
                match t.kind() {
                    ty::Array(..) => J::O(vec![("array", J::A(fs))]),
                    ty::Tuple(..) => J::O(vec![("tuple", J::A(fs))]),
                    _ => J::O(vec![
                        ("adt", tj),
                        ("v", u(d.variant.map(|v| v.as_usize()).unwrap_or(0))),
                        ("f", J::A(fs)),
                    ]),
                }
            }
            None => J::O(vec![("opaque", s(format!("{v:?}")))]),
        }
    }
    fn constant(&mut self, c: &mir::ConstOperand<'tcx>, inst: usize, idef: DefId, env: usize) -> J {
        let t = c.const_.ty();
        if let ty::FnDef(..) = t.kind() {
            return J::O(vec![("fn", self.ty(t, env))]);
        }
        if let mir::Const::Ty(_, ct) = c.const_ {
            let v = self.cnst(ct, env);
            if let J::O(_) = v {
                let tj = self.ty(t, env);
                return J::O(vec![("cparam", v), ("ty", tj)]);
            }
        }
        if let mir::Const::Unevaluated(uc, _) = c.const_ {
            if let Some(p) = uc.promoted {
                // a promoted of this very body: hand out its MIR
                if uc.def == idef {
                    self.promoted.insert((inst, p.as_usize()));
                    return J::O(vec![("promoted", u(p.as_usize())), ("inst", u(inst))]);
                }
                // promoted of a body that was inlined into this one
                let k = self.inst(Instance::new_raw(uc.def, uc.args), env);
                self.promoted.insert((k, p.as_usize()));
                return J::O(vec![("promoted", u(p.as_usize())), ("inst", u(k))]);
            }
        }
        let tj = self.ty(t, env);
        match c.const_.eval(self.tcx, self.envs[env], c.span) {
            Ok(v) => J::O(vec![("val", self.cval(v, t, env)), ("ty", tj)]),
            Err(_) => {
                if let mir::Const::Unevaluated(uc, _) = c.const_ {
                    let a = self.gargs(uc.args, env);
                    return J::O(vec![("uneval", s(self.path(uc.def))), ("args", a), ("ty", tj)]);
                }
                J::O(vec![("opaque", s(format!("{:?}", c.const_))), ("ty", tj)])
            }
        }
    }
    fn operand(&mut self, o: &Operand<'tcx>, inst: usize, idef: DefId, env: usize) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p, env)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p, env)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(c, inst, idef, env)]),
            Operand::RuntimeChecks(_) => J::A(vec![s("rc")]),
        }
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
    }
    fn body(&mut self, b: &Body<'tcx>, inst: usize, idef: DefId, env: usize) -> J {
        let mut locals = vec![];
        for d in b.local_decls.iter() {
            locals.push(self.ty(d.ty, env));
        }
        let mut names = vec![];
        for d in b.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = &d.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![u(p.local.as_usize()), s(d.name.to_string())]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        let pj = self.place(p, env);
                        let rj = self.rvalue(r, b, inst, idef, env);
                        st.push(J::A(vec![s("="), pj, rj]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place, env);
                        st.push(J::A(vec![s("sd"), pj, u(variant_index.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        let d = format!("{i:?}");
                        if let mir::NonDivergingIntrinsic::Assume(_) = &**i {
                            continue;
                        }
                        st.push(J::A(vec![s("intr"), s(d)]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), u(target.as_usize())]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), u(real_target.as_usize())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), u(real_target.as_usize())])
                }
                TerminatorKind::Drop { target, .. } => J::A(vec![s("goto"), u(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, inst, idef, env);
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dt = self.ty(dt, env);
                    let v: Vec<J> =
                        targets.iter().map(|(v, t)| J::A(vec![J::U(v), u(t.as_usize())])).collect();
                    J::A(vec![s("switch"), d, dt, J::A(v), u(targets.otherwise().as_usize())])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::A(vec![s("unwind")])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) if matches!(c.const_.ty().kind(), ty::FnDef(..)) => {
                            let ty::FnDef(d, a) = *c.const_.ty().kind() else { unreachable!() };
                            let j = self.callee(d.into(), a.skip_binder(), env);
                            J::O(vec![("def", j)])
                        }
                        o => J::O(vec![("op", self.operand(o, inst, idef, env))]),
                    };
                    let a: Vec<J> =
                        args.iter().map(|a| self.operand(&a.node, inst, idef, env)).collect();
                    let d = self.place(destination, env);
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    let dt = self.norm(dt, env);
                    let dt = self.ty(dt, env);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        d,
                        target.map(|t| u(t.as_usize())).unwrap_or(J::Null),
                        dt,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, inst, idef, env);
                    let m = match &**msg {
                        AssertKind::Overflow(op, ..) => format!("overflow {op:?}"),
                        AssertKind::BoundsCheck { .. } => "index out of bounds".into(),
                        AssertKind::DivisionByZero(_) => "division by zero".into(),
                        AssertKind::RemainderByZero(_) => "remainder by zero".into(),
                        AssertKind::OverflowNeg(_) => "overflow neg".into(),
                        _ => "assert".to_string(),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), s(m), u(target.as_usize())])
                }
                other => J::A(vec![s("unsupported"), s(format!("{other:?}"))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("sp", self.span(t.source_info.span)),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        J::O(vec![
            ("args", u(b.arg_count)),
            ("spread", b.spread_arg.map(|l| u(l.as_usize())).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>, inst: usize, idef: DefId, env: usize) -> J {
        let tcx = self.tcx;
        macro_rules! op {
            ($o:expr) => {
                self.operand($o, inst, idef, env)
            };
        }
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), op!(o)]),
            Rvalue::Repeat(o, c) => {
                let oj = op!(o);
                J::A(vec![s("repeat"), oj, self.cnst(*c, env)])
            }
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                J::B(matches!(k, mir::BorrowKind::Mut { .. })),
                self.place(p, env),
            ]),
            Rvalue::RawPtr(k, p) => J::A(vec![
                s("rawptr"),
                J::B(matches!(k, mir::RawPtrKind::Mut)),
                self.place(p, env),
            ]),
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(&b.local_decls, tcx);
                let kj = match k {
                    CastKind::IntToInt => "int".to_string(),
                    CastKind::PointerCoercion(c, _) => format!("coerce {c:?}"),
                    k => format!("{k:?}"),
                };
                let oj = op!(o);
                J::A(vec![s("cast"), s(kj), oj, self.ty(ft, env), self.ty(*t, env)])
            }
            Rvalue::BinaryOp(bop, bx) => {
                let t = bx.0.ty(&b.local_decls, tcx);
                let a = op!(&bx.0);
                let c = op!(&bx.1);
                J::A(vec![s("bin"), s(format!("{bop:?}")), a, c, self.ty(t, env)])
            }
            Rvalue::UnaryOp(uop, o) => {
                let t = o.ty(&b.local_decls, tcx);
                let oj = op!(o);
                J::A(vec![s("un"), s(format!("{uop:?}")), oj, self.ty(t, env)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, tcx).ty;
                let pj = self.place(p, env);
                J::A(vec![s("discr"), pj, self.ty(t, env)])
            }
            Rvalue::Aggregate(k, fs) => {
                let v: Vec<J> = fs.iter().map(|o| op!(o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t, env)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, af) => {
                        let t = Ty::new_adt(tcx, tcx.adt_def(*d), args);
                        if af.is_some() {
                            J::A(vec![s("union")])
                        } else {
                            J::A(vec![s("adt"), self.ty(t, env), u(vi.as_usize())])
                        }
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(tcx, *d, args);
                        J::A(vec![s("closure"), self.ty(t, env)])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p, env)])]),
            other => J::A(vec![s("unsupported"), s(format!("{other:?}"))]),
        }
    }

    fn run(&mut self, out: &str) {
        let tcx = self.tcx;
        let mut roots = vec![];
        let mut root_defs = vec![];
        // environment 0: no parameters
        let mono = ty::TypingEnv::fully_monomorphized();
        self.env_id(mono);
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn) {
                continue;
            }
            let p = self.path(d);
            if p.contains("models::") {
                self.models.insert(p.rsplit("::").next().unwrap().to_string(), d);
                continue;
            }
            if p.contains("roots::") {
                root_defs.push((d, p));
            }
        }
        for (d, p) in root_defs {
            let env = self.env_id(ty::TypingEnv::post_analysis(tcx, d));
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let inst = Instance::new_raw(d, tcx.erase_and_anonymize_regions(args));
            let k = self.inst(inst, env);
            roots.push(J::O(vec![("path", s(p)), ("inst", u(k))]));
        }
        loop {
            self.flush_types();
            let Some((k, inst, env)) = self.inst_q.pop_front() else {
                if self.type_q.is_empty() {
                    break;
                }
                continue;
            };
            // whatever the compiler's own queries cannot answer makes the function opaque, never the run fail
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.inst_json(k, inst, env)));
            let j = match r {
                Ok(j) => j,
                Err(_) => {
                    let d = inst.def_id();
                    J::O(vec![
                        ("path", s(self.path(d))),
                        ("crate", s(tcx.crate_name(d.krate).to_string())),
                        ("args", J::A(vec![])),
                        ("span", self.span(tcx.def_span(d))),
                        ("nomir", s("compiler query failed")),
                    ])
                }
            };
            self.inst_out.push((k, j));
        }
        let mut o = String::new();
        o.push_str("{\"roots\":");
        J::A(roots).write(&mut o);
        o.push_str(",\n\"types\":[");
        for (i, t) in self.type_out.iter().enumerate() {
            if i > 0 {
                o.push_str(",\n");
            }
            t.write(&mut o);
        }
        o.push_str("],\n\"insts\":{");
        for (i, (k, j)) in self.inst_out.iter().enumerate() {
            if i > 0 {
                o.push_str(",\n");
            }
            write!(o, "\"{k}\":").unwrap();
            j.write(&mut o);
        }
        o.push_str("}}\n");
        std::fs::write(out, o).expect("write MIR dump");
    }
    fn inst_json(&mut self, k: usize, inst: Instance<'tcx>, env: usize) -> J {
        let tcx = self.tcx;
        let d = inst.def_id();
        let path = self.path(d);
        let krate = tcx.crate_name(d.krate).to_string();
        let mut o = vec![("path", s(path.clone())), ("crate", s(krate.clone()))];
        o.push(("args", self.gargs(inst.args, env)));
        o.push(("span", self.span(tcx.def_span(d))));
        if !inline_ok(&path, &krate, d.is_local()) {
            return J::O(o);
        }
        if !tcx.is_mir_available(d) || tcx.intrinsic(d).is_some() {
            o.push(("nomir", J::B(true)));
            return J::O(o);
        }
        let raw = tcx.instance_mir(inst.def);
        let te = self.envs[env];
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            te,
            EarlyBinder::bind(tcx, raw.clone()),
        ) {
            Ok(b) => b,
            Err(_) => {
                o.push(("nomir", s("cannot normalise")));
                return J::O(o);
            }
        };
        let bj = self.body(&body, k, d, env);
        o.push(("body", bj));
        // promoteds
        let pm = tcx.promoted_mir(d);
        let mut ps = vec![];
        for p in pm.iter() {
            match inst.try_instantiate_mir_and_normalize_erasing_regions(
                tcx,
                te,
                EarlyBinder::bind(tcx, p.clone()),
            ) {
                Ok(b) => ps.push(self.body(&b, k, d, env)),
                Err(_) => ps.push(J::Null),
            }
        }
        o.push(("promoted", J::A(ps)));
        J::O(o)
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx {
            tcx,
            types: HashMap::new(),
            type_q: VecDeque::new(),
            type_out: vec![],
            envs: vec![],
            env_ids: HashMap::new(),
            insts: HashMap::new(),
            inst_q: VecDeque::new(),
            inst_out: vec![],
            next_inst: 0,
            promoted: HashSet::new(),
            models: HashMap::new(),
        };
        cx.run(&self.out);
        // nothing after this point is needed, and diagnostics of failed queries do not count
        std::process::exit(0)
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_target = args.iter().any(|a| a == "ssz_harness");
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if is_target && !out.is_empty() {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
