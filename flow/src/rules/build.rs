//! Building and adjusting patterns, units and mappers (C29): constructors, builder functions,
//! setters, accessors and copies. Where each part of the built value has to come from follows from
//! the signature (the only argument of that type, or the argument of that name), from a table of
//! documented defaults, or from the operation (a setter changes one part, a copy changes none).
use crate::interp::*;
use crate::oracle::*;
use crate::term::*;
use rustc_hir::def::DefKind;
use rustc_middle::ty::{self, Ty};

const P: &str = "C29";

#[derive(Clone, Debug)]
enum Src {
    /// argument `i` (from 1)
    Arg(usize),
    /// field `j` of argument `i`
    Fld(usize, usize),
    /// conversion of argument `i`
    Into(usize),
    /// argument `i` inside a standard container
    Wrap(usize),
    Bool(bool),
    Num(i128),
}

#[derive(Clone)]
struct Part<'tcx> {
    path: Vec<(usize, Ty<'tcx>)>,
    name: String,
    src: Src,
}

struct Plan<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    f: &'a Fun<'tcx>,
    names: Vec<String>,
    tys: Vec<Ty<'tcx>>,
    out: Vec<Part<'tcx>>,
}

fn teq<'tcx>(cx: &Cx<'tcx>, a: Ty<'tcx>, b: Ty<'tcx>) -> bool {
    a == b || cx.tcx.erase_and_anonymize_regions(a) == cx.tcx.erase_and_anonymize_regions(b)
}
fn scalar(t: Ty<'_>) -> bool {
    t.is_bool() || t.is_integral()
}
fn field_name<'tcx>(t: Ty<'tcx>, i: usize) -> String {
    match t.kind() {
        ty::Adt(d, _) if d.is_struct() => d.non_enum_variant().fields[rustc_abi::FieldIdx::from_usize(i)].name.to_string(),
        _ => i.to_string(),
    }
}
fn is_local_struct<'tcx>(t: Ty<'tcx>) -> bool {
    matches!(t.kind(), ty::Adt(d, _) if d.is_struct() && d.did().is_local())
}
/// a type with nothing in it that could differ
fn hollow<'tcx>(cx: &Cx<'tcx>, t: Ty<'tcx>) -> bool {
    match t.kind() {
        ty::Adt(d, _) => d.is_phantom_data() || (d.is_struct() && d.did().is_local() && cx.variant_fields(t, 0).into_iter().all(|x| hollow(cx, x))),
        ty::FnDef(..) => true,
        ty::Tuple(l) => l.iter().all(|x| hollow(cx, x)),
        _ => false,
    }
}
/// containers with one part
fn inner<'tcx>(cx: &Cx<'tcx>, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
    match t.kind() {
        ty::Adt(d, a) if !d.did().is_local() => match cx.adt_name(t).as_str() {
            "Box" | "Rc" | "Arc" | "Cell" | "RefCell" | "Mutex" | "OnceLock" | "OnceCell" => a.types().next(),
            "Atomic" | "AtomicUsize" | "AtomicBool" => match cx.adt_name(t).as_str() {
                "AtomicUsize" => Some(cx.tcx.types.usize),
                "AtomicBool" => Some(cx.tcx.types.bool),
                _ => a.types().next(),
            },
            _ => None,
        },
        _ => None,
    }
}

/// documented values of the parts a builder function does not ask for
fn default(item: &str, adt: &str, field: &str) -> Option<Src> {
    Some(match (adt, field) {
        ("Separate" | "SepCollect" | "Separate2", "skip") => Src::Bool(true),
        ("Separate" | "SepCollect" | "Collect", "min") => Src::Num(1),
        ("Vector" | "PairVector" | "Array" | "PairArray" | "Slice" | "PairSlice", "longest") => Src::Bool(item.ends_with("_ltm")),
        ("Assert", "value") => Src::Bool(match item {
            "not" => false,
            "peek" => true,
            _ => return None,
        }),
        ("Prefix" | "PrefixSync", "count") if item == "prefix" || item == "prefix_sync" => Src::Num(1),
        ("Prefix" | "PrefixSync", "value") => Src::Bool(true),
        _ => return None,
    })
}

/// the name `default` knows a part by: a flag or number is recognised by being the only one of its type
fn canon<'tcx>(cx: &Cx<'tcx>, owner: &str, name: &str, ft: Ty<'tcx>, fs: &[Ty<'tcx>]) -> String {
    let plain = |t: Ty<'tcx>| inner(cx, t).filter(|x| scalar(*x)).unwrap_or(t);
    let known: &[(&str, bool)] = match owner {
        "Separate" | "SepCollect" => &[("skip", true), ("min", false)],
        "Separate2" => &[("skip", true)],
        "Collect" => &[("min", false)],
        "Vector" | "PairVector" | "Array" | "PairArray" | "Slice" | "PairSlice" => &[("longest", true)],
        "Assert" => &[("value", true)],
        "Prefix" | "PrefixSync" => &[("count", false), ("value", true)],
        _ => &[],
    };
    if known.iter().any(|k| k.0 == name) || !scalar(plain(ft)) || fs.iter().filter(|x| plain(**x) == plain(ft)).count() != 1 {
        return name.to_string();
    }
    known.iter().find(|k| k.1 == plain(ft).is_bool()).map_or(name.to_string(), |k| k.0.to_string())
}

impl<'a, 'tcx> Plan<'a, 'tcx> {
    /// where a part of type `t` called `name` comes from; None if nothing says so
    fn part(&mut self, t: Ty<'tcx>, owner: &str, name: &str, path: &[(usize, Ty<'tcx>)], shape: (usize, usize)) -> Option<()> {
        let cx = self.cx;
        if hollow(cx, t) {
            return Some(());
        }
        let mut put = |src: Src| {
            self.out.push(Part { path: path.to_vec(), name: name.to_string(), src });
            Some(())
        };
        let item = self.f.item.as_str();
        let by_ty: Vec<usize> = (0..self.tys.len()).filter(|i| teq(cx, self.tys[*i], t)).collect();
        if scalar(t) {
            if let Some(s) = default(item, owner, name) {
                let given = by_ty.iter().any(|i| self.names[*i] == name) || (t.is_bool() && by_ty.len() == 1);
                if !given {
                    return put(s);
                }
            }
            if let Some(i) = by_ty.iter().find(|i| self.names[**i] == name) {
                return put(Src::Arg(i + 1));
            }
            if shape.0 == 1 && by_ty.len() == 1 {
                return put(Src::Arg(by_ty[0] + 1));
            }
        } else {
            match by_ty.len() {
                1 => return put(Src::Arg(by_ty[0] + 1)),
                0 => {}
                _ => {
                    let i = by_ty.iter().find(|i| self.names[**i] == name)?;
                    return put(Src::Arg(i + 1));
                }
            }
        }
        // a part of something given
        let mut from = vec![];
        for (i, at) in self.tys.iter().enumerate() {
            let at = cx.peel(*at);
            if is_local_struct(at) {
                for (j, ft) in cx.variant_fields(at, 0).into_iter().enumerate() {
                    if teq(cx, ft, t) {
                        from.push((i, j, field_name(at, j)));
                    }
                }
            }
        }
        let same_name: Vec<_> = from.iter().filter(|x| x.2 == name).collect();
        if same_name.len() == 1 {
            return put(Src::Fld(same_name[0].0 + 1, same_name[0].1));
        }
        if from.len() == 1 && !scalar(t) {
            return put(Src::Fld(from[0].0 + 1, from[0].1));
        }
        // something else the caller gave, converted
        let params: Vec<usize> = (0..self.tys.len()).filter(|i| matches!(self.tys[*i].kind(), ty::Param(_))).collect();
        if cx.adt_name(t) == "CRange" {
            if let Some(i) = params.iter().find(|i| self.names[**i] == "range").or(params.last()) {
                return put(Src::Into(i + 1));
            }
        }
        if let Some(it) = inner(cx, t) {
            if let Some(i) = (0..self.tys.len()).find(|i| teq(cx, self.tys[*i], it)) {
                if !scalar(it) || self.names[i] == name || (shape.1 == 1 && self.tys.iter().filter(|x| teq(cx, **x, it)).count() == 1) {
                    return put(Src::Wrap(i + 1));
                }
            }
            if scalar(it) {
                if let Some(s) = default(item, owner, name) {
                    return put(s);
                }
                if let Some(i) = (0..self.tys.len()).find(|i| teq(cx, self.tys[*i], it) && self.names[*i] == name) {
                    return put(Src::Wrap(i + 1));
                }
            }
            if matches!(it.kind(), ty::Dynamic(..)) && params.len() == 1 {
                return put(Src::Wrap(params[0] + 1));
            }
        }
        if let ty::Ref(_, it, _) = t.kind() {
            if matches!(it.kind(), ty::Dynamic(..)) && self.tys.len() == 1 {
                return put(Src::Arg(1));
            }
        }
        // built from parts itself
        if is_local_struct(t) {
            let n = self.out.len();
            let ok = self.fields(t, path);
            if ok.is_none() {
                self.out.truncate(n);
            }
            return ok;
        }
        None
    }
    fn fields(&mut self, t: Ty<'tcx>, path: &[(usize, Ty<'tcx>)]) -> Option<()> {
        let cx = self.cx;
        let fs = cx.variant_fields(t, 0);
        let owner = cx.adt_name(t);
        let scalars = fs.iter().filter(|x| scalar(**x)).count();
        let mut ok = false;
        for (i, ft) in fs.iter().enumerate() {
            if hollow(cx, *ft) {
                continue;
            }
            let mut p = path.to_vec();
            p.push((i, *ft));
            let name = canon(cx, &owner, &field_name(t, i), *ft, &fs);
            let mine = if name.parse::<usize>().is_ok() && self.names.len() == 1 { self.names[0].clone() } else { name };
            // a capacity is a hint
            if mine == "capacity" && self.f.item != "set_capacity" && !self.names.iter().any(|n| *n == mine) {
                continue;
            }
            let alike = fs.iter().filter(|x| inner(cx, **x).is_some() && inner(cx, **x) == inner(cx, *ft)).count();
            ok |= self.part(*ft, &owner, &mine, &p, (scalars, alike)).is_some();
        }
        ok.then_some(())
    }
}

fn value<'tcx>(o: &O<'_, 'tcx>, s: &Src) -> Val<'tcx> {
    match s {
        Src::Arg(i) | Src::Into(i) | Src::Wrap(i) => o.arg(*i),
        Src::Fld(i, j) => {
            let t = o.cx.peel(o.m.tys[*i - 1]);
            o.fld(&o.argv(*i), t, *j)
        }
        Src::Bool(b) => Val::bool(*b),
        Src::Num(n) => Val::k(*n),
    }
}

fn at<'tcx>(o: &O<'_, 'tcx>, v: &Val<'tcx>, path: &[(usize, Ty<'tcx>)]) -> Val<'tcx> {
    let mut v = v.clone();
    for (i, t) in path {
        v = o.cx.project(&v, &PE::Field(0, *i as u32, *t));
    }
    v
}

/// the value inside containers made here
fn unwrap<'tcx>(o: &O<'_, 'tcx>, v: &Val<'tcx>, want: &Val<'tcx>) -> Option<bool> {
    let mut v = v.clone();
    for _ in 0..8 {
        if o.same(&v, want) {
            return Some(true);
        }
        v = match &v {
            Val::Agg(_, f) if f.iter().filter(|x| !matches!(x, Val::Undef)).count() >= 1 => {
                let mut l = f.iter().filter(|x| !matches!(x, Val::Agg(_, g) if g.is_empty()));
                match (l.next(), l.next()) {
                    (Some(x), None) => x.clone(),
                    (Some(_), Some(_)) => return f.iter().any(|x| o.same(x, want)).then_some(true),
                    _ => return None,
                }
            }
            Val::Ref(p) if !matches!(p.root, Root::Ext(_)) => o.cx.load(o.st, p),
            _ => match o.app_of(&v) {
                Some((_, a)) if a.len() == 1 => a[0].clone(),
                _ => return if o.cx.mentions(&v, want) { None } else { Some(false) },
            },
        };
    }
    None
}

/// does a part hold what it has to?
fn check<'tcx>(o: &mut O<'_, 'tcx>, v: &Val<'tcx>, p: &Part<'tcx>) -> R<()> {
    let got = at(o, v, &p.path);
    let want = value(o, &p.src);
    o.cx.obligation("part");
    if let Val::Undef = got {
        return o.undecided("a part of the built value");
    }
    let whence = match &p.src {
        Src::Arg(i) | Src::Into(i) | Src::Wrap(i) => format!("the argument `{}`", o.m.names.get(*i - 1).cloned().unwrap_or_default()),
        Src::Fld(..) => "the part it is taken from".into(),
        Src::Bool(b) => format!("{b}"),
        Src::Num(n) => format!("{n}"),
    };
    let bad = |o: &O<'_, 'tcx>| o.bad(format!("the part `{}` is not {whence}", p.name));
    match &p.src {
        Src::Into(_) => {
            if o.same(&got, &want) {
                return Ok(());
            }
            match o.app_of(&got) {
                Some((h, a)) if (h.ends_with("::into") || h.ends_with("::from")) && a.len() == 1 => {
                    if !o.same(&a[0], &want) {
                        bad(o);
                    }
                }
                _ => {
                    // still what it was before
                    if o.m.tys.first().is_some_and(|t| teq(o.cx, o.cx.peel(*t), o.cx.peel(o.cx.root_ret))) && o.same(&got, &at(o, &o.argv(1), &p.path)) {
                        bad(o);
                        return Ok(());
                    }
                    if o.cx.mentions(&got, &want) || !matches!(got, Val::Agg(..)) {
                        return o.undecided("a converted part");
                    }
                    bad(o);
                }
            }
        }
        Src::Wrap(_) => match unwrap(o, &got, &want) {
            Some(true) => {}
            Some(false) => bad(o),
            None => return o.undecided("a part inside a container"),
        },
        Src::Bool(b) => {
            let g = if let Val::Agg(_, f) = &got { f.first().cloned().unwrap_or(Val::Undef) } else { got };
            if o.truth(&g)? != *b {
                bad(o);
            }
        }
        Src::Num(n) => {
            let g = if let Val::Agg(_, f) = &got { f.first().cloned().unwrap_or(Val::Undef) } else { got };
            if !o.eq(&o.cx.to_lin(&g), &Lin::k(*n)) {
                bad(o);
            }
        }
        _ => {
            if !o.same(&got, &want) && !copy_of(o, &got, &want) {
                bad(o);
            }
        }
    }
    Ok(())
}
/// an unmodelled copy of the same thing, or the same thing made of its parts
fn copy_of<'tcx>(o: &O<'_, 'tcx>, got: &Val<'tcx>, want: &Val<'tcx>) -> bool {
    let (g, w) = (o.cx.peel_val(o.st, got), o.cx.peel_val(o.st, want));
    if g == w {
        return true;
    }
    if let Some((h, a)) = o.app_of(got) {
        if (h.ends_with("::clone") || h.ends_with("::load") || h.ends_with("::get")) && a.len() == 1 {
            return o.same(&a[0], want);
        }
        if h.ends_with("cellget") || h.ends_with("cellval") {
            return o.same(&a[0], want);
        }
    }
    if let (Val::Agg(v, f), Val::Sym(s, t)) = (&g, &w) {
        if !matches!(t.kind(), ty::Adt(d, _) if !d.is_enum()) && !matches!(t.kind(), ty::Tuple(_)) {
            return false;
        }
        // a cell is its value
        if f.len() == 1 {
            if let Some((h, a)) = o.app_of(&f[0]) {
                if &*h == "cellget" {
                    return a.len() == 1 && o.same(&a[0], &w);
                }
            }
        }
        if let Val::Agg(_, x) = o.cx.explode(*s, *t, *v) {
            if x.len() == f.len() {
                return f.iter().zip(x.iter()).all(|(a, b)| o.same(a, b) || copy_of(o, a, b));
            }
        }
    }
    false
}

pub fn arg_names<'tcx>(cx: &Cx<'tcx>, f: &Fun<'tcx>, n: usize) -> Vec<String> {
    let l = cx.tcx.fn_arg_idents(f.did);
    (0..n).map(|i| l.get(i).copied().flatten().map(|x| x.name.to_string()).unwrap_or_default()).collect()
}

pub fn rule<'tcx>(cx: &Cx<'tcx>, _st: &mut State<'tcx>, f: &Fun<'tcx>, args: &[Val<'tcx>], _me: &Val<'tcx>) -> Option<Rule<'tcx>> {
    if f.in_trait && !matches!(f.tr.as_str(), "NeuIntoRegexOps" | "CtorOps") {
        return None;
    }
    let n = args.len();
    let tys = cx.root_args.clone();
    let names = arg_names(cx, f, n);
    let ret = cx.root_ret;
    let label = |s: &str| format!("{} {} {s}", f.adt, f.item);
    let mut r = match f.tr.as_str() {
        "Default" => defaults(cx, f)?,
        "Debug" | "Display" | "PartialEq" | "Eq" | "PartialOrd" | "Ord" | "Hash" | "FnMut" | "Drop" | "Error" | "Iterator"
        | "DoubleEndedIterator" | "ExactSizeIterator" | "Regex" | "Ctor" | "Handler" | "Context" | "Match" | "Neu" | "NeuCond" | "MatchMulti"
        | "Assert" | "PolicyMatch" | "MapSpan" | "RangeBounds" => return None,
        "Clone" => copy(cx, f)?,
        "Deref" | "DerefMut" => accessor(cx, f, tys[0], &names)?,
        _ if n == 1 && (tys[0].is_ref() || f.item.starts_with("into_")) && is_local_struct(cx.peel(tys[0])) => accessor(cx, f, tys[0], &names)?,
        _ if n == 1 && f.item == "range" && cx.adt_name(ret) == "CRange" => {
            let p = Part { path: vec![], name: "range".into(), src: Src::Into(1) };
            Rule::new(P, &label("converts"), move |o| {
                let v = o.ret.clone();
                check(o, &v, &p)
            })
        }
        _ if n == 2 && setter_field(cx, f, tys[0], tys[1]).is_some() => setter(cx, f, tys[0], tys[1])?,
        // a setter, but of what?
        _ if n == 2 && scalar(tys[1]) && teq(cx, cx.peel(tys[0]), cx.peel(ret)) => return None,
        _ => {
            if !is_local_struct(ret) || tys.iter().any(|t| matches!(t.kind(), ty::Ref(_, x, m) if m.is_mut() && !x.is_str())) {
                return None;
            }
            if matches!(cx.adt_name(ret).as_str(), "Span" | "CtxGuard" | "RegexCtx" | "VecStorer" | "ArrayStorer" | "BytesIndices" | "CharIndicesOffset" | "Spans") {
                return None;
            }
            let mut p = Plan { cx, f, names: names.clone(), tys: tys.clone(), out: vec![] };
            // the whole value is something given
            if p.fields(ret, &[]).is_none() || p.out.is_empty() {
                return None;
            }
            let parts = p.out;
            Rule::new(P, &label("builds"), move |o| {
                let v = o.ret.clone();
                let v = o.cx.peel_val(o.st, &v);
                for p in &parts {
                    check(o, &v, p)?;
                }
                Ok(())
            })
        }
    };
    r.names = names;
    // building may refuse what it is given
    r.may_panic = |_| true;
    Some(r)
}

/// every part has the default of its type
fn defaults<'tcx>(cx: &Cx<'tcx>, f: &Fun<'tcx>) -> Option<Rule<'tcx>> {
    fn parts<'tcx>(cx: &Cx<'tcx>, t: Ty<'tcx>, path: &[(usize, Ty<'tcx>)], out: &mut Vec<Vec<(usize, Ty<'tcx>)>>) {
        for (i, ft) in cx.variant_fields(t, 0).into_iter().enumerate() {
            let mut p = path.to_vec();
            p.push((i, ft));
            if scalar(ft) || matches!(cx.adt_name(ft).as_str(), "Option" | "Vec") {
                out.push(p);
            } else if is_local_struct(ft) && cx.adt_name(ft) != "CRange" {
                parts(cx, ft, &p, out);
            }
        }
    }
    let t = f.me?;
    if f.item != "default" || hollow(cx, t) || !is_local_struct(t) || matches!(f.adt.as_str(), "CRange" | "ArrayStorer") {
        return None;
    }
    let mut ps = vec![];
    parts(cx, t, &[], &mut ps);
    if ps.is_empty() {
        return None;
    }
    Some(Rule::new(P, &format!("{} default", f.adt), move |o| {
        let v = o.ret.clone();
        for p in &ps {
            let ft = p[p.len() - 1].1;
            let got = at(o, &v, p);
            o.cx.obligation("part");
            let ok = if scalar(ft) {
                let k = o.cx.to_lin(&got);
                o.eq(&k, &Lin::k(0))
            } else if o.cx.adt_name(ft) == "Option" {
                o.case(&got, ft)?.0 == 0
            } else {
                match &got {
                    Val::Coll(_, n) => o.eq(n, &Lin::k(0)),
                    Val::Arr(..) => true,
                    x => return o.undecided(&format!("a default collection {x:?}")),
                }
            };
            if !ok {
                o.bad(format!("the part `{}` does not have its default", field_name(t, p[0].0)));
            }
        }
        Ok(())
    }))
}

/// every part of the copy is the original's
fn copy<'tcx>(cx: &Cx<'tcx>, f: &Fun<'tcx>) -> Option<Rule<'tcx>> {
    let t = f.me?;
    if f.item != "clone" || hollow(cx, t) || !is_local_struct(t) {
        return None;
    }
    let fs: Vec<_> = cx.variant_fields(t, 0).into_iter().enumerate().filter(|x| !hollow(cx, x.1)).collect();
    Some(Rule::new(P, &format!("{} copy", f.adt), move |o| {
        let (v, me) = (o.ret.clone(), o.argv(1));
        for (i, ft) in &fs {
            o.cx.obligation("part");
            let (got, want) = (at(o, &v, &[(*i, *ft)]), at(o, &me, &[(*i, *ft)]));
            if let Val::Undef = got {
                return o.undecided("a part of the copy");
            }
            if !o.same(&got, &want) && !copy_of(o, &got, &want) {
                if o.cx.mentions(&got, &want) && !ft.is_bool() && !ft.is_integral() {
                    return o.undecided("a part of the copy");
                }
                o.bad(format!("the copy's part `{}` differs", field_name(t, *i)));
            }
        }
        Ok(())
    }))
}

/// the part an accessor is named after
fn accessor<'tcx>(cx: &Cx<'tcx>, f: &Fun<'tcx>, me: Ty<'tcx>, _names: &[String]) -> Option<Rule<'tcx>> {
    let tcx = cx.tcx;
    let p = tcx.opt_parent(f.did)?;
    let deref = matches!(f.tr.as_str(), "Deref" | "DerefMut");
    if !deref && !matches!(tcx.def_kind(p), DefKind::Impl { of_trait: false }) {
        return None;
    }
    let t = cx.peel(me);
    let ret = cx.root_ret;
    let rt = cx.peel(ret);
    let name = f.item.strip_suffix("_mut").unwrap_or(&f.item);
    let fs = cx.variant_fields(t, 0);
    let name = name.strip_prefix("into_").unwrap_or(name);
    let i = (!deref).then(|| cx.field_ix(t, name)).flatten().filter(|i| teq(cx, fs[*i], rt)).or_else(|| {
        let l: Vec<usize> = (0..fs.len()).filter(|i| teq(cx, cx.peel(fs[*i]), rt)).collect();
        (l.len() == 1).then(|| l[0])
    })?;
    // what is not named after a part and is no accessor of the interface may give anything
    if !deref
        && cx.field_ix(t, name).is_none()
        && (scalar(rt) || matches!(rt.kind(), ty::Slice(_) | ty::Str) || cx.adt_name(t).ends_with("Storer") || !tcx.visibility(f.did).is_public())
    {
        return None;
    }
    let ft = fs[i];
    let by_ref = ret.is_ref() && !ft.is_ref();
    Some(Rule::new(P, &format!("{} {}", f.adt, f.item), move |o| {
        o.cx.obligation("part");
        let p = match o.arg(1) {
            Val::Ref(p) if me.is_ref() => p,
            v => {
                let (got, want) = (o.ret.clone(), at(o, &v, &[(i, ft)]));
                o.want_same(&got, &want, "another part is returned");
                return Ok(());
            }
        };
        let p = p.field(0, i as u32, ft);
        if by_ref {
            match o.ret.clone() {
                Val::Ref(q) => {
                    if q != p && !o.same(&o.cx.load(o.st, &q), &o.cx.load(o.st, &p)) {
                        o.bad(format!("not the part `{}`", field_name(t, i)));
                    }
                }
                _ => return o.undecided("returned reference"),
            }
        } else {
            let v = o.cx.load(o.st, &p);
            let r = o.ret.clone();
            o.want_same(&r, &v, "another part is returned");
        }
        unchanged(o, t, 1, None);
        Ok(())
    }))
}

/// the receiver still is what it was, except for field `but`
fn unchanged<'tcx>(o: &mut O<'_, 'tcx>, t: Ty<'tcx>, i: usize, but: Option<usize>) {
    let (now, was) = (o.now(i), o.argv(i));
    for (j, ft) in o.cx.variant_fields(t, 0).into_iter().enumerate() {
        if Some(j) == but || hollow(o.cx, ft) {
            continue;
        }
        let (a, b) = (at(o, &now, &[(j, ft)]), at(o, &was, &[(j, ft)]));
        if !o.same(&a, &b) {
            o.bad(format!("the part `{}` changes as well", field_name(t, j)));
        }
    }
}

/// index of the field an operation on `me` with one more argument sets
fn setter_field<'tcx>(cx: &Cx<'tcx>, f: &Fun<'tcx>, me: Ty<'tcx>, v: Ty<'tcx>) -> Option<usize> {
    let p = cx.tcx.opt_parent(f.did)?;
    if !matches!(cx.tcx.def_kind(p), DefKind::Impl { of_trait: false }) {
        return None;
    }
    let t = cx.peel(me);
    if !is_local_struct(t) || !teq(cx, cx.peel(cx.root_ret), t) || f.me.is_none_or(|x| !teq(cx, x, t)) {
        return None;
    }
    let name = match f.item.as_str() {
        "at_least" => "min",
        "reset_with" => "inner",
        n => n.strip_prefix("set_").or(n.strip_prefix("with_"))?,
    };
    let fs = cx.variant_fields(t, 0);
    let fit = |ft: Ty<'tcx>| teq(cx, ft, v) || (matches!(v.kind(), ty::Param(_)) && cx.adt_name(ft) == "CRange");
    cx.field_ix(t, name).filter(|i| fit(fs[*i])).or_else(|| {
        let l: Vec<usize> = (0..fs.len()).filter(|i| fit(fs[*i])).collect();
        let alike: Vec<usize> = l.iter().copied().filter(|i| field_name(t, *i).contains(name)).collect();
        match (l.as_slice(), alike.as_slice()) {
            ([i], _) | (_, [i]) => Some(*i),
            _ => None,
        }
    })
}

fn setter<'tcx>(cx: &Cx<'tcx>, f: &Fun<'tcx>, me: Ty<'tcx>, v: Ty<'tcx>) -> Option<Rule<'tcx>> {
    let t = cx.peel(me);
    let i = setter_field(cx, f, me, v)?;
    let ft = cx.variant_fields(t, 0)[i];
    let by_ref = me.is_ref();
    let src = if teq(cx, ft, v) { Src::Arg(2) } else { Src::Into(2) };
    let part = Part { path: vec![(i, ft)], name: field_name(t, i), src };
    Some(Rule::new(P, &format!("{} {}", f.adt, f.item), move |o| {
        if by_ref {
            let now = o.now(1);
            check(o, &now, &part)?;
            unchanged(o, t, 1, Some(i));
            if o.cx.root_ret.is_ref() {
                o.want_self("the receiver is not returned");
            }
        } else {
            let r = o.ret.clone();
            check(o, &r, &part)?;
            let was = o.argv(1);
            for (j, ft) in o.cx.variant_fields(t, 0).into_iter().enumerate() {
                if j == i || hollow(o.cx, ft) {
                    continue;
                }
                let (a, b) = (at(o, &r, &[(j, ft)]), at(o, &was, &[(j, ft)]));
                if !o.same(&a, &b) {
                    o.bad(format!("the part `{}` changes as well", field_name(t, j)));
                }
            }
        }
        Ok(())
    }))
}
