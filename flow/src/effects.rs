//! C27: matching leaves no trace and depends on nothing but the pattern, the input and the position.
//! An effect analysis over the whole crate: which types can change behind a shared reference, which
//! statics there are, and what functions read that is not handed to them.
use crate::Unit;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, visit::Visitor};
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

const P: &str = "C27";
const P28: &str = "C28";

/// what a pattern, a context or something they are made of implements
const ROLES: &[&str] = &["Regex", "Ctor", "Neu", "NeuCond", "Handler", "Context", "Match", "PolicyMatch", "MapSingle", "ValueMapper", "MapSpan", "Mapper"];
/// units documented to count their uses
const COUNTING: &[&str] = &["Prefix", "PrefixSync"];

/// std types whose content can change behind a shared reference
fn changes(path: &str) -> bool {
    let (m, n) = path.rsplit_once("::").unwrap_or(("", path));
    let m = m.split("::").next().unwrap_or("");
    matches!(m, "core" | "std" | "alloc")
        && (n.starts_with("Atomic")
            || matches!(
                n,
                "UnsafeCell" | "SyncUnsafeCell" | "Cell" | "RefCell" | "OnceCell" | "LazyCell" | "Mutex" | "RwLock" | "OnceLock" | "LazyLock" | "ReentrantLock"
                    | "Once" | "Condvar" | "Barrier" | "LocalKey" | "Sender" | "Receiver" | "SyncSender"
            ))
}
/// made once, from nothing that could differ
fn lazy(path: &str) -> bool {
    path.ends_with("::LazyLock") || path.ends_with("::LazyCell")
}

/// the first part of the type that can change behind a shared reference
fn cell_in<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, seen: &mut BTreeSet<String>, but: &HashSet<DefId>) -> Option<String> {
    match t.kind() {
        ty::Adt(d, a) => {
            let path = full(tcx, d.did());
            if d.is_phantom_data() {
                return None;
            }
            if !d.did().is_local() {
                if foreign_log(tcx, d.did()) {
                    return None;
                }
                if changes(&path) || path.contains("::atomic::") {
                    return Some(path);
                }
                return a.types().find_map(|x| cell_in(tcx, x, seen, but));
            }
            if but.contains(&d.did()) {
                return None;
            }
            if !seen.insert(tcx.def_path_str_with_args(d.did(), a)) {
                return None;
            }
            d.all_fields().find_map(|f| {
                let ft = f.ty(tcx, a).skip_norm_wip();
                cell_in(tcx, ft, seen, but).map(|x| format!("{x} in `{}` of {}", f.name, tcx.item_name(d.did())))
            })
        }
        ty::Ref(_, x, _) | ty::Slice(x) | ty::Array(x, _) => cell_in(tcx, *x, seen, but),
        ty::RawPtr(x, m) => {
            if m.is_mut() {
                Some(format!("*mut {x}"))
            } else {
                cell_in(tcx, *x, seen, but)
            }
        }
        ty::Tuple(l) => l.iter().find_map(|x| cell_in(tcx, x, seen, but)),
        _ => None,
    }
}
/// where it is defined, however it is called here
fn full(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}
fn foreign_log(tcx: TyCtxt<'_>, d: DefId) -> bool {
    let c = tcx.crate_name(d.krate);
    c.as_str().starts_with("tracing") || c.as_str() == "log"
}

/// what is read that nobody handed over
fn source(path: &str) -> Option<&'static str> {
    let has = |l: &[&str]| l.iter().any(|x| path.starts_with(x));
    let last = path.rsplit("::").next().unwrap_or("");
    if has(&["std::time::", "std::sys::time", "std::sys::pal::unix::time"]) {
        return Some("the clock");
    }
    if has(&["std::env::", "std::sys::env"]) {
        return Some("the environment");
    }
    if has(&["std::thread::", "std::sys::thread", "std::panicking::", "std::panic::panicking"]) {
        return Some("the thread");
    }
    if has(&["std::process::", "std::fs::", "std::net::", "std::os::", "std::io::stdin", "std::io::stdio::"]) {
        return Some("the system");
    }
    if has(&["std::random::", "core::random::", "std::hash::random::"]) {
        return Some("a random source");
    }
    if has(&["std::collections::hash", "hashbrown::"]) && matches!(last, "iter" | "iter_mut" | "keys" | "values" | "values_mut" | "drain" | "into_keys" | "into_values" | "retain" | "into_iter") {
        return Some("the order of a hash table");
    }
    if has(&["core::sync::atomic::", "std::sync::atomic::"]) {
        return Some("an atomic");
    }
    if has(&["std::backtrace::", "core::panic::location"]) {
        return Some("the call site");
    }
    if has(&["core::ptr::"]) && matches!(last, "addr" | "expose_provenance" | "addr_eq") {
        return Some("an address");
    }
    None
}

struct Body<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a mir::Body<'tcx>,
    env: ty::TypingEnv<'tcx>,
    calls: u64,
    counting: bool,
    found: Vec<(String, String)>,
}
impl<'tcx> Body<'_, 'tcx> {
    fn at(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.source_callsite().lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }
    fn logging(&self, sp: rustc_span::Span) -> bool {
        sp.from_expansion()
            && sp.macro_backtrace().any(|m| m.macro_def_id.is_some_and(|d| foreign_log(self.tcx, d)))
    }
}
impl<'tcx> Visitor<'tcx> for Body<'_, 'tcx> {
    fn visit_terminator(&mut self, t: &mir::Terminator<'tcx>, l: mir::Location) {
        if let mir::TerminatorKind::Call { func, .. } = &t.kind
            && let ty::FnDef(d, a) = func.ty(&self.body.local_decls, self.tcx).kind()
        {
            self.calls += 1;
            let d: DefId = (*d).into();
            let a = self.tcx.erase_and_anonymize_regions(a.skip_binder());
            // what the call comes to, as far as it is known
            let t0 = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(a)).unwrap_or(a);
            let d = match ty::Instance::try_resolve(self.tcx, self.env, d, t0) {
                Ok(Some(i)) => i.def_id(),
                _ => d,
            };
            if !d.is_local() && !self.logging(t.source_info.span) {
                let p = full(self.tcx, d);
                if let Some(s) = source(&p)
                    && !(self.counting && s == "an atomic")
                {
                    self.found.push((format!("depends on {s}"), format!("{p} at {}", self.at(t.source_info.span))));
                }
            }
        }
        self.super_terminator(t, l);
    }
    fn visit_rvalue(&mut self, r: &mir::Rvalue<'tcx>, l: mir::Location) {
        let sp = self.body.source_info(l).span;
        match r {
            mir::Rvalue::Cast(mir::CastKind::PointerExposeProvenance, ..) => {
                self.found.push(("depends on an address".into(), format!("cast at {}", self.at(sp))));
            }
            mir::Rvalue::ThreadLocalRef(d) if !foreign_log(self.tcx, *d) => {
                self.found.push(("depends on the thread".into(), format!("{} at {}", self.tcx.def_path_str(*d), self.at(sp))));
            }
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_assign(&mut self, p: &mir::Place<'tcx>, r: &mir::Rvalue<'tcx>, l: mir::Location) {
        // a write through a raw pointer
        let mut t = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection {
            if matches!(e, mir::ProjectionElem::Deref) && matches!(t.ty.kind(), ty::RawPtr(_, m) if m.is_mut()) {
                let sp = self.body.source_info(l).span;
                self.found.push(("writes through a raw pointer".into(), format!("at {}", self.at(sp))));
            }
            t = t.projection_ty(self.tcx, e);
        }
        self.super_assign(p, r, l);
    }
}

/// the type whose implementation the function belongs to
fn owner(tcx: TyCtxt<'_>, d: DefId) -> Option<DefId> {
    let d = tcx.typeck_root_def_id(d);
    let p = tcx.opt_parent(d)?;
    if !matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
        return None;
    }
    match tcx.type_of(p).instantiate_identity().skip_norm_wip().peel_refs().kind() {
        ty::Adt(a, _) => Some(a.did()),
        _ => None,
    }
}

pub fn units(tcx: TyCtxt<'_>, filt: &str, out: &mut Vec<Unit>) {
    if !filt.is_empty() && filt != "effects" {
        return;
    }
    // parts of the counting units
    let mut counting: HashSet<DefId> = HashSet::new();
    let mut adts = vec![];
    for id in tcx.hir_crate_items(()).free_items() {
        let d = id.owner_id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            adts.push(d);
            if COUNTING.contains(&tcx.item_name(d).as_str()) {
                counting.insert(d);
            }
        }
    }
    loop {
        let n = counting.len();
        for d in counting.clone() {
            for f in tcx.adt_def(d).all_fields() {
                for g in f.ty(tcx, ty::GenericArgs::identity_for_item(tcx, d)).skip_norm_wip().walk() {
                    if let Some(ty::Adt(a, _)) = g.as_type().map(|t| t.kind())
                        && a.did().is_local()
                    {
                        counting.insert(a.did());
                    }
                }
            }
        }
        if n == counting.len() {
            break;
        }
    }
    let mut roles: HashMap<DefId, BTreeSet<String>> = HashMap::new();
    for (tr, imps) in tcx.all_local_trait_impls(()) {
        let n = tcx.item_name(*tr).to_string();
        if !tr.is_local() || !(ROLES.contains(&n.as_str()) || n.contains("Map")) {
            continue;
        }
        for i in imps {
            if let ty::Adt(a, _) = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip().kind()
                && a.did().is_local()
            {
                roles.entry(a.did()).or_default().insert(n.clone());
            }
        }
    }
    let unit = |name: String, file: String, rule: &str| Unit {
        name,
        file,
        rule: format!("effects {P} {rule}"),
        own: P.into(),
        props: vec![P.into()],
        status: "ok".into(),
        nums: vec![],
        oblig: vec![],
        opaque: vec![],
        findings: vec![],
    };
    for d in adts {
        if counting.contains(&d) || !roles.contains_key(&d) {
            continue;
        }
        let mut u = unit(format!("state of {}", tcx.def_path_str(d)), crate::file_of(tcx, d), "nothing in it can change while it is shared");
        let def = tcx.adt_def(d);
        u.oblig.push(("field".into(), def.all_fields().count() as u64));
        for f in def.all_fields() {
            let t = f.ty(tcx, ty::GenericArgs::identity_for_item(tcx, d)).skip_norm_wip();
            if let Some(w) = cell_in(tcx, t, &mut BTreeSet::new(), &counting) {
                u.findings.push((P.into(), format!("the part `{}` can change while the value is shared", f.name), w));
            }
        }
        out.push(u);
    }
    let mut files: BTreeMap<String, Unit> = BTreeMap::new();
    for l in tcx.hir_body_owners() {
        let d = l.to_def_id();
        let file = crate::file_of(tcx, d);
        let path = file.rsplit_once(':').map_or(file.as_str(), |x| x.0).to_string();
        let u = files.entry(path.clone()).or_insert_with(|| {
            let mut u = unit(format!("effects of {path}"), path.clone(), "nothing is read that was not handed over");
            u.oblig = vec![("function".into(), 0), ("call".into(), 0), ("static".into(), 0)];
            u
        });
        match tcx.def_kind(d) {
            DefKind::Static { mutability, .. } => {
                u.oblig[2].1 += 1;
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let log = tcx.def_span(d).macro_backtrace().any(|m| m.macro_def_id.is_some_and(|d| foreign_log(tcx, d)));
                let cell = cell_in(tcx, t, &mut BTreeSet::new(), &HashSet::new());
                if log {
                } else if mutability.is_mut() || tcx.is_thread_local_static(d) || cell.as_deref().is_some_and(|c| !lazy(c)) {
                    u.findings.push((P.into(), format!("state outside of patterns: {}", tcx.def_path_str(d)), cell.unwrap_or_default()));
                }
            }
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                u.oblig[0].1 += 1;
                let body = tcx.optimized_mir(d);
                let mut b = Body {
                    tcx,
                    body,
                    env: ty::TypingEnv::post_analysis(tcx, d),
                    calls: 0,
                    counting: owner(tcx, d).is_some_and(|o| counting.contains(&o)),
                    found: vec![],
                };
                b.visit_body(body);
                u.oblig[1].1 += b.calls;
                let name = tcx.def_path_str(tcx.typeck_root_def_id(d));
                for (w, at) in b.found {
                    u.findings.push((P.into(), format!("{name} {w}"), at));
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if let ty::Adt(a, _) = t.kind()
                    && tcx.item_name(a.did()).as_str() == "LocalKey"
                {
                    u.findings.push((P.into(), format!("state outside of patterns: {}", tcx.def_path_str(d)), "a thread-local".into()));
                }
            }
            _ => {}
        }
    }
    out.extend(files.into_values());
}

/// C28: what can be moved to and shared between threads. Decided by the compiler's own trait solver,
/// for type parameters of which nothing is known but that they are `Send` and `Sync`.
/// Made for one thread: `Prefix` counts in a `Cell` (`PrefixSync` is its twin), the `DynRefAdapter`s borrow a
/// trait object that promises nothing.
const ONE_THREAD: &[&str] = &["Prefix", "DynRefAdapter"];

pub fn threads<'tcx>(tcx: TyCtxt<'tcx>, filt: &str, out: &mut Vec<Unit>) {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    if !filt.is_empty() && filt != "effects" {
        return;
    }
    let (Some(send), Some(sync)) = (tcx.get_diagnostic_item(rustc_span::sym::Send), tcx.lang_items().sync_trait()) else { return };
    let able = |owner: DefId, t: Ty<'tcx>, tr: DefId, given: bool| -> bool {
        let mut cl: Vec<ty::Clause<'tcx>> = tcx.param_env(owner).caller_bounds().collect();
        for a in ty::GenericArgs::identity_for_item(tcx, owner) {
            if let Some(p) = a.as_type()
                && given
            {
                for x in [send, sync] {
                    cl.push(ty::Upcast::upcast(ty::TraitRef::new(tcx, x, [p]), tcx));
                }
            }
        }
        let env = ty::ParamEnv::new(tcx, cl);
        let (icx, env) = tcx.infer_ctxt().build_with_typing_env(ty::TypingEnv::new(env, ty::TypingMode::PostAnalysis));
        icx.type_implements_trait(tr, [t], env).must_apply_modulo_regions()
    };
    let unit = |name: String, file: String| Unit {
        name,
        file,
        rule: format!("threads {P28} sent and shared when its parts can"),
        own: P28.into(),
        props: vec![P28.into()],
        status: "ok".into(),
        nums: vec![],
        oblig: vec![("auto trait".into(), 0)],
        opaque: vec![],
        findings: vec![],
    };
    for l in tcx.hir_crate_items(()).definitions() {
        let d = l.to_def_id();
        let (t, what) = match tcx.def_kind(d) {
            DefKind::TyAlias if tcx.item_name(d).as_str().ends_with("Sync") => (tcx.type_of(d).instantiate_identity().skip_norm_wip(), "alias"),
            DefKind::Struct | DefKind::Enum if tcx.visibility(d).is_public() && !ONE_THREAD.contains(&tcx.item_name(d).as_str()) => (tcx.type_of(d).instantiate_identity().skip_norm_wip(), "type"),
            DefKind::Fn | DefKind::AssocFn if tcx.item_name(d).as_str().ends_with("_sync") || tcx.item_name(d).as_str().contains("_sync_") => {
                let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(d).instantiate_identity().skip_norm_wip());
                (sig.output(), "result of")
            }
            _ => continue,
        };
        let mut u = unit(format!("{what} {}", tcx.def_path_str(d)), crate::file_of(tcx, d));
        for (tr, can) in [(send, "be sent to"), (sync, "be shared with")] {
            u.oblig[0].1 += 1;
            if !able(d, t, tr, true) {
                u.findings.push((P28.into(), format!("cannot {can} another thread although its parts can"), format!("{t}")));
            }
        }
        out.push(u);
    }
    // a promise made by hand has to be true of every part
    for (tr, name) in [(send, "Send"), (sync, "Sync")] {
        for &im in tcx.all_local_trait_impls(()).get(&tr).into_iter().flatten() {
            let d = im.to_def_id();
            let mut u = unit(format!("impl of {name} {}", tcx.def_path_str(d)), crate::file_of(tcx, d));
            if tcx.impl_polarity(d) == ty::ImplPolarity::Positive
                && let ty::Adt(a, args) = tcx.type_of(d).instantiate_identity().skip_norm_wip().kind()
            {
                for f in a.all_fields() {
                    u.oblig[0].1 += 1;
                    let t = f.ty(tcx, args).skip_norm_wip();
                    if !able(d, t, tr, false) {
                        u.findings.push((P28.into(), format!("promises {name} although a part is not"), format!("{}: {t}", f.name)));
                    }
                }
            }
            out.push(u);
        }
    }
}
