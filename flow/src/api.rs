//! C32: what a feature combination offers: the public items with their signatures and bounds, and the crates
//! it is made of. Compared across combinations by check.py.
use crate::esc;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, TyCtxt, print::PrintTraitRefExt};

fn canon<T>(f: impl FnOnce() -> T) -> T {
    ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(f()))
}

fn bounds(tcx: TyCtxt<'_>, d: DefId) -> String {
    let mut v: Vec<String> = tcx.param_env(d).caller_bounds().map(|p| canon(|| format!("{p}"))).collect();
    // what logging asks of the items is the documented exception
    let asked: Vec<String> = v.iter().filter_map(|x| x.strip_suffix(": MayDebug").map(|x| format!("{x}: core::fmt::Debug"))).collect();
    v.retain(|x| !asked.contains(x));
    v.sort();
    v.join(" + ")
}

fn signature(tcx: TyCtxt<'_>, d: DefId, k: DefKind) -> Option<String> {
    Some(match k {
        DefKind::Fn | DefKind::AssocFn => canon(|| format!("{}", tcx.fn_sig(d).instantiate_identity().skip_norm_wip())),
        DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } | DefKind::TyAlias | DefKind::Field => {
            canon(|| format!("{}", tcx.type_of(d).instantiate_identity().skip_norm_wip()))
        }
        DefKind::Struct | DefKind::Enum | DefKind::Union | DefKind::Variant | DefKind::Trait | DefKind::Mod => String::new(),
        _ => return None,
    })
}

pub fn list(tcx: TyCtxt<'_>) -> String {
    let mut out = vec![];
    let vis = tcx.effective_visibilities(());
    let mut add = |item: String, sig: String, file: String| out.push(format!("{{\"item\":{},\"sig\":{},\"file\":{}}}", esc(&item), esc(&sig), esc(&file)));
    for l in tcx.hir_crate_items(()).definitions() {
        let d = l.to_def_id();
        let k = tcx.def_kind(d);
        let file = crate::file_of(tcx, d);
        if let DefKind::Impl { of_trait: true } = k {
            let r = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
            // what only the crate can name is nobody's business
            let seen = |x: DefId| x.as_local().is_none_or(|x| vis.is_reachable(x));
            let me = r.self_ty().ty_adt_def().is_none_or(|a| seen(a.did()));
            if me && seen(r.def_id) {
                add(canon(|| format!("impl {} for {}", r.print_only_trait_path(), r.self_ty())), bounds(tcx, d), file);
            }
            continue;
        }
        if !vis.is_reachable(l) || tcx.is_doc_hidden(d) {
            continue;
        }
        if let Some(p) = tcx.opt_parent(d)
            && matches!(tcx.def_kind(p), DefKind::Impl { of_trait: true })
        {
            continue;
        }
        let Some(s) = signature(tcx, d, k) else { continue };
        let with = if matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Struct | DefKind::Enum | DefKind::Trait) { format!(" where {}", bounds(tcx, d)) } else { String::new() };
        add(format!("{} {}", tcx.def_descr(d), canon(|| tcx.def_path_str(d))), s + &with, file);
    }
    // the names under which modules offer them
    let mods = tcx.hir_crate_items(()).definitions().filter(|l| tcx.def_kind(*l) == DefKind::Mod && vis.is_reachable(*l));
    for m in mods.chain([rustc_hir::def_id::CRATE_DEF_ID]) {
        for c in tcx.module_children_local(m) {
            if c.vis.is_public()
                && !c.res.opt_def_id().is_some_and(|d| tcx.is_doc_hidden(d))
                && let Some(d) = c.res.opt_def_id()
            {
                let path = format!("{}::{}", canon(|| tcx.def_path_str(m.to_def_id())), c.ident);
                add(format!("name {} {path}", tcx.def_descr(d)), canon(|| tcx.def_path_str(d)), crate::file_of(tcx, m.to_def_id()));
            }
        }
    }
    for c in tcx.crates(()) {
        add(format!("crate {}", tcx.crate_name(*c)), String::new(), String::new());
    }
    out.sort();
    out.join("\n") + "\n"
}
