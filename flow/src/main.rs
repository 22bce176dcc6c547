#![feature(rustc_private)]
#![allow(clippy::too_many_arguments)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod api;
mod effects;
mod engine;
mod interp;
mod models;
mod oracle;
mod rules;
mod search;
mod spec;
mod term;

use interp::*;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_interface::interface::Compiler;
use rustc_middle::ty::{self, TyCtxt};

struct Cb;
struct N;
impl rustc_driver::Callbacks for N {}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// One unit of the analysis: a function, the rule applied to it and what came out.
pub struct Unit {
    pub name: String,
    pub file: String,
    pub rule: String,
    pub own: String,
    pub props: Vec<String>,
    pub status: String,
    pub nums: Vec<(String, u64)>,
    pub oblig: Vec<(String, u64)>,
    pub opaque: Vec<String>,
    pub findings: Vec<(String, String, String)>,
}
impl Unit {
    fn json(&self) -> String {
        let l = |v: &[String]| v.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",");
        let n = |v: &[(String, u64)]| v.iter().map(|x| format!("{}:{}", esc(&x.0), x.1)).collect::<Vec<_>>().join(",");
        format!(
            "{{\"unit\":{},\"file\":{},\"rule\":{},\"own\":{},\"props\":[{}],\"status\":{},\"stats\":{{{}}},\"oblig\":{{{}}},\"opaque\":[{}],\"findings\":[{}]}}",
            esc(&self.name),
            esc(&self.file),
            esc(&self.rule),
            esc(&self.own),
            l(&self.props),
            esc(&self.status),
            n(&self.nums),
            n(&self.oblig),
            l(&self.opaque),
            self.findings
                .iter()
                .map(|f| format!("{{\"property\":{},\"what\":{},\"detail\":{}}}", esc(&f.0), esc(&f.1), esc(&f.2)))
                .collect::<Vec<_>>()
                .join(",")
        )
    }
}

pub fn file_of(tcx: TyCtxt<'_>, did: rustc_hir::def_id::DefId) -> String {
    let sp = tcx.def_span(did);
    let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
    format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line)
}

fn matchers(tcx: TyCtxt<'_>, filt: &str, out: &mut Vec<Unit>) {
    for ldid in tcx.hir_body_owners() {
        let did = ldid.to_def_id();
        if tcx.def_kind(did) != DefKind::AssocFn {
            continue;
        }
        let nm = tcx.item_name(did);
        if !matches!(nm.as_str(), "try_parse" | "parse" | "construct" | "try_mat" | "try_mat_policy") {
            continue;
        }
        let name = tcx.def_path_str(did);
        if !name.contains(filt) {
            continue;
        }
        if let Some(u) = analyse(tcx, did, None, &name, |cx, st| spec::install(cx, st, did, &name)) {
            out.push(u);
        }
    }
}

/// Functions with a rule of their own. Provided trait methods are analysed once per implementation
/// that does not override them.
fn oracles(tcx: TyCtxt<'_>, filt: &str, out: &mut Vec<Unit>) {
    let mut done = std::collections::HashSet::new();
    for ldid in tcx.hir_body_owners() {
        let did = ldid.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::AssocFn | DefKind::Fn) {
            continue;
        }
        let name = tcx.def_path_str(did);
        if !name.contains(filt) || (filt == APPENDED && !tcx.visibility(did).is_public()) {
            continue;
        }
        if let Some(u) = analyse(tcx, did, None, &name, |cx, st| search::install(cx, st, did, None).or_else(|_| oracle::install(cx, st, did, None))) {
            done.insert(did);
            out.push(u);
        }
    }
    for tr in tcx.all_local_trait_impls(()).keys().copied().filter(|t| t.is_local()).collect::<Vec<_>>() {
        for imp in tcx.all_local_trait_impls(())[&tr].clone() {
            let imp = imp.to_def_id();
            let have: Vec<_> = tcx.associated_items(imp).in_definition_order().filter_map(|a| a.opt_name()).collect();
            for a in tcx.associated_items(tr).in_definition_order() {
                let Some(an) = a.opt_name() else { continue };
                if !matches!(a.kind, ty::AssocKind::Fn { .. }) || have.contains(&an) || !tcx.defaultness(a.def_id).has_value() {
                    continue;
                }
                let r = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
                // generic in its own right and implemented for everything: decided in the trait itself
                if matches!(r.self_ty().kind(), ty::Param(_)) && (tcx.generics_of(a.def_id).own_counts().types > 0 && done.contains(&a.def_id)) {
                    continue;
                }
                let name = format!("<{} as {}>::{} (provided)", r.self_ty(), tcx.item_name(tr), an);
                if !name.contains(filt) {
                    continue;
                }
                if let Some(u) = analyse(tcx, a.def_id, Some(imp), &name, |cx, st| oracle::install(cx, st, a.def_id, Some(imp))) {
                    out.push(u);
                }
            }
        }
    }
}

fn analyse<'tcx>(
    tcx: TyCtxt<'tcx>,
    did: rustc_hir::def_id::DefId,
    imp: Option<rustc_hir::def_id::DefId>,
    name: &str,
    install: impl Fn(&Cx<'tcx>, &mut State<'tcx>) -> Result<spec::Installed, String>,
) -> Option<Unit> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| analyse_in(tcx, did, imp, name, install))) {
        Ok(u) => u,
        Err(_) => Some(Unit {
            name: name.to_string(),
            file: file_of(tcx, did),
            rule: String::new(),
            own: String::new(),
            props: vec![],
            status: "the analysis gave up on this function".into(),
            nums: vec![],
            oblig: vec![],
            opaque: vec![],
            findings: vec![],
        }),
    }
}

fn analyse_in<'tcx>(
    tcx: TyCtxt<'tcx>,
    did: rustc_hir::def_id::DefId,
    imp: Option<rustc_hir::def_id::DefId>,
    name: &str,
    install: impl Fn(&Cx<'tcx>, &mut State<'tcx>) -> Result<spec::Installed, String>,
) -> Option<Unit> {
    let mut cx = Cx::new(tcx, imp.unwrap_or(did));
    let mut args = ty::GenericArgs::identity_for_item(tcx, did);
    if let Some(i) = imp {
        // the method's own generics stay abstract
        let r = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
        let n = tcx.generics_of(did).parent_count;
        args = tcx.mk_args_from_iter(r.args.iter().chain(args.iter().skip(n)));
        cx.self_ty = Some(cx.subst_ty(r.self_ty()));
    }
    if imp.is_some() {
        // a signature that only makes sense together with the method's own bounds
        let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(did).instantiate(tcx, args).skip_norm_wip());
        if sig.inputs_and_output.iter().any(|t| tcx.try_normalize_erasing_regions(cx.env, ty::Unnormalized::new_wip(t)).is_err()) {
            return None;
        }
    }
    let inst = ty::Instance::new_raw(did, args);
    let body = cx.body(inst)?;
    cx.root_ret = body.body.local_decls[rustc_middle::mir::RETURN_PLACE].ty;
    cx.root_args = (1..=body.body.arg_count)
        .map(|i| body.body.local_decls[rustc_middle::mir::Local::from_usize(i)].ty)
        .collect();
    let mut st = engine::initial(&cx, body);
    let ins = match install(&cx, &mut st) {
        Ok(i) => i,
        Err(_) => return None,
    };
    if std::env::var("FLOW_TRACE").is_ok() {
        eprintln!("unit {name}");
    }
    let mut e = engine::Engine::new(&cx);
    let r = e.run(&st);
    let s = cx.stats.borrow().clone();
    Some(Unit {
        name: name.to_string(),
        file: file_of(tcx, did),
        rule: ins.rule,
        own: ins.own.to_string(),
        // every function is watched for loops and calls that get nowhere
        props: ins.props.iter().copied().chain(["C33"]).map(|x| x.to_string()).collect(),
        status: match &r {
            Ok(()) if cx.undecided.borrow().is_empty() => "ok".to_string(),
            Ok(()) => cx.undecided.borrow().iter().take(6).cloned().collect::<Vec<_>>().join(" || "),
            Err(w) => w.clone(),
        },
        nums: vec![
            ("exits".into(), s.exits as u64),
            ("loop_heads".into(), s.heads as u64),
            ("passes".into(), s.passes as u64),
            ("steps".into(), s.steps as u64),
        ],
        oblig: cx.oblig.borrow().iter().map(|(k, v)| (k.to_string(), *v as u64)).collect(),
        opaque: s.opaque.iter().map(|x| x.to_string()).collect(),
        findings: if r.is_err() { cx.hard.borrow() } else { cx.findings.borrow() }
            .iter()
            .map(|((k, w), d)| (k.to_string(), w.clone(), d.clone()))
            .collect(),
    })
}

/// The crate root followed by the functions of another file: what the crate's macros build is decided
/// where they are used.
struct Appended {
    root: std::path::PathBuf,
    more: String,
}
impl rustc_span::source_map::FileLoader for Appended {
    fn file_exists(&self, path: &std::path::Path) -> bool {
        path.exists()
    }
    fn read_file(&self, path: &std::path::Path) -> std::io::Result<String> {
        let s = std::fs::read_to_string(path)?;
        Ok(if path == self.root { s + &self.more } else { s })
    }
    fn read_binary_file(&self, path: &std::path::Path) -> std::io::Result<std::sync::Arc<[u8]>> {
        Ok(std::fs::read(path)?.into())
    }
    fn current_directory(&self) -> std::io::Result<std::path::PathBuf> {
        std::env::current_dir()
    }
}
/// the functions of the appended file
pub const APPENDED: &str = "__macro_cases";

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        if let (Ok(f), rustc_session::config::Input::File(root)) = (std::env::var("FLOW_APPEND"), &c.input) {
            let more = std::fs::read_to_string(f).unwrap();
            c.file_loader = Some(Box::new(Appended { root: root.clone(), more }));
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(p) = std::env::var("FLOW_API") {
            std::fs::write(p, api::list(tcx) + "{\"done\":true}\n").unwrap();
            return Compilation::Continue;
        }
        let filt = std::env::var("FLOW_ROOT").unwrap_or_default();
        let mut out = vec![];
        let appended = std::env::var("FLOW_APPEND").is_ok();
        let filt = if appended { APPENDED.to_string() } else { filt };
        if !appended {
            matchers(tcx, &filt, &mut out);
            effects::units(tcx, &filt, &mut out);
            effects::threads(tcx, &filt, &mut out);
        }
        oracles(tcx, &filt, &mut out);
        let text: String = out.iter().map(|u| u.json() + "\n").collect();
        if std::env::var("FLOW_ALL").is_ok() {
            for l in tcx.hir_body_owners() {
                let d = l.to_def_id();
                if matches!(tcx.def_kind(d), DefKind::AssocFn | DefKind::Fn) {
                    eprintln!("FN {} {}", file_of(tcx, d), tcx.def_path_str(d));
                }
            }
        }
        match std::env::var("FLOW_OUT") {
            Ok(p) => std::fs::write(p, text + "{\"done\":true}\n").unwrap(),
            Err(_) => print!("{text}"),
        }
        Compilation::Continue
    }
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if std::env::var("CARGO_PRIMARY_PACKAGE").is_err() || std::env::var("CARGO_CRATE_NAME").as_deref() != Ok("neure") {
        rustc_driver::compiler_entrypoint(&args, &mut N);
        return;
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
