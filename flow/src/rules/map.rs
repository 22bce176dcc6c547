//! Conversions applied to matched text (C25).
use crate::interp::*;
use crate::oracle::*;
use crate::term::*;
use rustc_middle::ty::{self, Ty};

const P: &str = "C25";

pub fn rule<'tcx>(_cx: &Cx<'tcx>, _st: &mut State<'tcx>, f: &Fun<'tcx>, _args: &[Val<'tcx>], _me: &Val<'tcx>) -> Option<Rule<'tcx>> {
    if f.in_trait {
        return None;
    }
    let label = |s: &str| format!("{} {}", f.adt, s);
    match (f.tr.as_str(), f.item.as_str()) {
        ("FallibleMap", "out_size") => {
            let adt = f.adt.clone();
            let out = *f.targs.get(1)?;
            Some(Rule::new(P, &label("out_size"), move |o| match adt.as_str() {
                "FixedSize" => {
                    let v = o.fld(&o.argv(1), o.me_ty(), 0);
                    let l = o.cx.to_lin(&v);
                    o.want_lin(&l, "not the size given");
                    Ok(())
                }
                "WithDefault" => {
                    // the size is the wrapped mapper's, or that of the type
                    let r = o.ret_lin();
                    let app = |s: &Sym| match o.cx.tm.kind(*s) {
                        SymKind::App(h, _) => h.to_string(),
                        _ => String::new(),
                    };
                    let one = |n: &dyn Fn(&str) -> bool| r.c == 0 && r.t.len() == 1 && r.t[0].1 == 1 && n(&app(&r.t[0].0));
                    if one(&|h| h.ends_with("out_size") || h == format!("size_of {out}")) {
                        return Ok(());
                    }
                    if r.t.iter().all(|(s, _)| app(s).ends_with("out_size") || app(s).starts_with("size_of ")) {
                        o.bad("not the size of the value produced");
                        return Ok(());
                    }
                    o.undecided("size")
                }
                _ => {
                    let want = match o.cx.tcx.layout_of(o.cx.env.as_query_input(out)) {
                        Ok(l) => Lin::k(l.size.bytes() as i128),
                        _ => match o.cx.app(&format!("size_of {out}"), vec![], o.cx.tcx.types.usize) {
                            Val::Lin(l) => l,
                            _ => return o.undecided("size"),
                        },
                    };
                    o.want_lin(&want, "not the size of the value produced");
                    Ok(())
                }
            }))
        }
        ("FallibleMap", "try_map") => {
            let adt = f.adt.clone();
            let out = *f.targs.get(1)?;
            let inp = *f.targs.first()?;
            Some(Rule::new(P, &label("conversion"), move |o| try_map(o, &adt, inp, out)))
        }
        ("TryFromStrRadix", "from_str_radix") => {
            let t = f.me?;
            Some(Rule::new(P, &format!("{t} from digits"), move |o| {
                let Some((h, a)) = o.app_of(&o.ret.clone()) else { return rebuilt_radix(o, t) };
                o.cx.obligation("value");
                if !h.starts_with("from_str_radix ") || a.len() != 2 {
                    return o.undecided("conversion");
                }
                radix_call(o, &h, &a, t);
                Ok(())
            }))
        }
        _ => None,
    }
}

fn radix_call<'tcx>(o: &mut O<'_, 'tcx>, h: &str, a: &[Val<'tcx>], t: Ty<'tcx>) {
    if !h.contains(&format!("Result<{t},")) {
        o.bad(format!("parsed as another type than {t}"));
    }
    if !o.same(&a[0], &o.argv(1)) {
        o.bad("another text is parsed");
    }
    let r = o.arg(2);
    if !o.same(&a[1], &r) {
        o.bad("another radix is used");
    }
}
/// the result was taken apart and put together again
fn rebuilt_radix<'tcx>(o: &mut O<'_, 'tcx>, t: Ty<'tcx>) -> R<()> {
    let l: Vec<_> = o.log().into_iter().filter(|r| r.name.contains("from_str_radix")).collect();
    let _ = (l, t);
    o.undecided("conversion")
}

/// views that keep the text
fn strip<'tcx>(o: &O<'_, 'tcx>, v: &Val<'tcx>) -> Val<'tcx> {
    let mut v = v.clone();
    for _ in 0..6 {
        let p = o.cx.peel_val(o.st, &v);
        let n = |h: &str| h.rsplit("::").next().unwrap_or("").to_string();
        match o.app_of(&v).or_else(|| o.app_of(&p)) {
            Some((h, a)) if matches!(n(&h).as_str(), "as_ref" | "borrow" | "deref" | "as_str" | "to_vec" | "to_owned" | "to_string" | "into_boxed_str" | "clone" | "as_bytes" | "into" | "from" | "*") && a.len() == 1 => {
                v = a[0].clone()
            }
            _ => return p,
        }
    }
    v
}

/// the text itself, however it is held
fn text_of<'tcx>(o: &O<'_, 'tcx>, v: &Val<'tcx>) -> Val<'tcx> {
    let mut v = strip(o, v);
    while let Some((h, a)) = o.app_of(&v) {
        if &*h != "*" || a.len() != 1 {
            break;
        }
        v = a[0].clone();
    }
    v
}

/// one call of the library conversion `name` on the value given; its value, or the code on failure
fn convert<'tcx>(o: &mut O<'_, 'tcx>, names: &[&str], code: &str) -> R<()> {
    let l: Vec<_> = o.log().into_iter().filter(|r| names.iter().any(|n| r.name.ends_with(n))).collect();
    o.cx.obligation("call");
    if l.len() != 1 {
        if l.is_empty() && o.log().iter().any(|r| r.name.ends_with("_lossy") || r.name.ends_with("_unchecked")) {
            o.bad("a conversion is made that never refuses");
            return Ok(());
        }
        if l.is_empty() && o.log().iter().any(|r| r.k == EvK::Opaque as u32) {
            return o.undecided("which conversion is made");
        }
        o.bad(format!("{} conversions instead of one", l.len()));
        return Ok(());
    }
    let a = strip(o, &l[0].args[0]);
    let v = o.argv(2);
    if !o.same(&a, &v) && !o.same(&a, &strip(o, &o.arg(2))) {
        o.bad("another value is converted");
    }
    let Val::Sym(_, t) = l[0].res.clone() else { return o.undecided("outcome of the conversion") };
    let (k, x) = o.case(&l[0].res.clone(), t)?;
    if k == 0 {
        let x = o.f0(&x);
        let (rk, rx) = o.ret_case()?;
        let rx = o.f0(&rx);
        if rk == 0 && o.same(&text_of(o, &rx), &text_of(o, &x)) {
            o.cx.obligation("value");
            return Ok(());
        }
        o.want_ok(&x, "conversion")
    } else { o.want_err(code, "failed conversion") }
}

fn try_map<'tcx>(o: &mut O<'_, 'tcx>, adt: &str, inp: Ty<'tcx>, out: Ty<'tcx>) -> R<()> {
    let val = o.arg(2);
    let tup = |o: &O<'_, 'tcx>, i: usize| match inp.kind() {
        ty::Tuple(l) => o.cx.project(&val, &PE::Field(0, i as u32, l[i])),
        _ => Val::Undef,
    };
    match adt {
        // a function
        "" => {
            let Some(r) = o.one(&[EvK::CallFn], "the function is called once")? else { return Ok(()) };
            o.want_same(&r.args[0].clone(), &val, "the function gets another value");
            let t = o.cx.root_ret;
            if o.same(&o.ret.clone(), &r.res) {
                return Ok(());
            }
            let (k, x) = o.case(&r.res, t)?;
            let (rk, rx) = o.ret_case()?;
            if k != rk || !o.same(&o.f0(&x), &o.f0(&rx)) {
                o.bad("not what the function returned");
            }
            Ok(())
        }
        "FuncMapper" => {
            let Some(r) = o.one(&[EvK::CallFn], "the function is called once")? else { return Ok(()) };
            o.want_same(&r.args[0].clone(), &val, "the function gets another value");
            o.want_ok(&r.res, "mapped value")
        }
        "Select0" => o.want_ok(&tup(o, 0), "first of two"),
        "Select1" => o.want_ok(&tup(o, 1), "second of two"),
        "SelectEq" | "SelectNeq" => {
            let (a, b) = (tup(o, 0), tup(o, 1));
            let s = o.cx.eq_app(a, b);
            let eq = o.is(Atom::B(s))?;
            if eq == (adt == "SelectEq") { o.want_ok(&val, "accepted pair") } else { o.want_err(adt, "rejected pair") }
        }
        "FromStr" => convert(o, &["FromStr::from_str"], "FromStr"),
        "IntoMapper" => {
            o.cx.obligation("value");
            let (k, x) = o.ret_case()?;
            if k != 0 {
                o.bad("fails");
                return Ok(());
            }
            let x = o.f0(&x);
            match o.app_of(&x) {
                Some((h, a)) if (h.ends_with("::into") || h.ends_with("::from")) && a.len() == 1 => {
                    if !o.same(&a[0], &val) {
                        o.bad("another value is converted");
                    }
                    Ok(())
                }
                _ => o.undecided("conversion"),
            }
        }
        "TryIntoMapper" => convert(o, &["::try_into", "::try_from"], "TryInto"),
        "FromStrRadix" => {
            let l: Vec<_> = o.log().into_iter().filter(|r| r.name.ends_with("from_str_radix")).collect();
            if l.len() == 1 {
                let t = o.me_ty();
                let i = o.ix(t, |x| x.is_integral()).unwrap_or(0);
                let r = o.fld(&o.argv(1), t, i);
                if !o.same(&l[0].args[1], &r) {
                    o.bad("another radix is used");
                }
            }
            convert(o, &["from_str_radix"], "FromStr")
        }
        "FromUtf8" => convert(o, &["::from_utf8"], "Utf8Error"),
        "FromUtf8Lossy" => {
            let (k, x) = o.ret_case()?;
            o.cx.obligation("value");
            if k != 0 {
                o.bad("fails");
                return Ok(());
            }
            let x = o.f0(&x);
            match o.app_of(&x) {
                Some((h, a)) if h.ends_with("from_utf8_lossy") && a.len() == 1 => {
                    let s = strip(o, &a[0]);
                    if !o.same(&s, &o.argv(2)) && !o.same(&s, &strip(o, &o.arg(2))) {
                        o.bad("another text is decoded");
                    }
                    Ok(())
                }
                _ => o.undecided("decoding"),
            }
        }
        "FromLeBytes" | "FromBeBytes" | "FromNeBytes" => {
            let Ok(l) = o.cx.tcx.layout_of(o.cx.env.as_query_input(out)) else { return o.undecided("size") };
            let n = Lin::k(l.size.bytes() as i128);
            let Val::Ref(p) = &val else { return o.undecided("bytes") };
            let len = o.cx.seq_len(o.st, p);
            if !o.is(Atom::Ge(len.sub(&n)))? {
                return o.want_err(adt, "too few bytes");
            }
            let (k, x) = o.ret_case()?;
            o.cx.obligation("value");
            if k != 0 {
                o.bad("enough bytes, but it fails");
                return Ok(());
            }
            let x = o.f0(&x);
            let want = format!("from_{}_bytes {}", adt[4..6].to_lowercase(), out);
            match o.app_of(&x) {
                Some((h, a)) if h.contains("_bytes ") && a.len() == 1 => {
                    if *h != *want {
                        o.bad(format!("decoded with `{h}` instead of `{want}`"));
                    }
                    let rt = Ty::new_imm_ref(o.cx.tcx, o.cx.tcx.lifetimes.re_erased, o.cx.peel(inp));
                    let w = o.cx.sub_slice(o.st, p, &Lin::k(0), &n, rt);
                    if !o.same(&a[0], &w) {
                        o.bad("decoded from other bytes than the first ones");
                    }
                    Ok(())
                }
                _ => o.undecided("decoding"),
            }
        }
        "Bounded" => {
            let t = o.me_ty();
            let me = o.argv(1);
            let (lo, hi) = (o.named(&me, t, "min", 0), o.named(&me, t, "max", 1));
            let a = o.cx.tm.app("le", vec![lo, val.clone()], false);
            let b = o.cx.tm.app("lt", vec![val.clone(), hi], false);
            if o.is(Atom::B(a))? && o.is(Atom::B(b))? {
                o.want_ok(&val, "within the bounds")
            } else {
                o.want_err("Bounded", "out of bounds")
            }
        }
        "WithDefault" => {
            let Some(r) = o.one(&[EvK::MapCall], "the mapper runs once")? else { return Ok(()) };
            o.want_same(&r.args[0].clone(), &val, "the mapper gets another value");
            if r.ok == Some(true) {
                return o.want_ok(&r.res, "mapped value");
            }
            let Some(c) = o.one(&[EvK::CallFn], "the default is computed once")? else { return Ok(()) };
            o.want_ok(&c.res, "default value")
        }
        "FixedSize" => o.want_ok(&val, "the value itself"),
        _ => o.undecided("no rule for this mapper"),
    }
}
