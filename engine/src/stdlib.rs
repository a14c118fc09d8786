//! Models of the standard library functions that have no MIR in the dump
use crate::core::*;
use crate::ir::*;
use std::rc::Rc;

fn list<C: Client>(st: &State<C>, v: &Val) -> Option<Rc<Vec<Val>>> {
    match st.load_all(v) {
        Val::List(l) => Some(l),
        _ => None,
    }
}
fn elem(p: &Ptr, i: usize) -> Val {
    let mut p = p.clone();
    p.p.push(i as u32);
    Val::Ref(p)
}
pub fn is_str_ty(ir: &Ir, t: usize) -> bool {
    let mut t = t;
    while ir.types[t].k == "ref" {
        t = ir.types[t].e.unwrap_or(0);
    }
    ir.types[t].k == "str" || ir.types[t].s == "std::string::String"
}

pub fn builtin<C: Client>(e: &mut Eng<C>, c: &Rc<Callee>, a: &[Val], st: &State<C>, site: &Site) -> B<C> {
    let d = c.decl.as_str();
    let full = c.full.as_str();
    let one = |st: State<C>, v: Val| B::Outs(vec![(st, v)]);
    let selfty = c.dargs.first().map(|t| e.ir.types[*t].s.clone()).unwrap_or_default();
    let is_vec = selfty.starts_with("std::vec::Vec<");
    let is_string = selfty == "std::string::String";
    let last = d.rsplit("::").next().unwrap_or("");
    if c.kind == "clone" || (last == "clone" && d.contains("Clone") && c.f.is_none()) {
        let v = st.load(&a[0]);
        return one(st.clone(), v);
    }
    match d {
        "std::vec::Vec::<T>::new" | "std::vec::Vec::<T>::with_capacity" => return one(st.clone(), Val::List(Rc::new(vec![]))),
        "std::string::String::new" | "std::string::String::with_capacity" => return one(st.clone(), Val::Str(Rc::from(""))),
        "std::ops::Deref::deref" | "std::ops::DerefMut::deref_mut" | "std::convert::AsRef::as_ref" | "std::borrow::Borrow::borrow" if is_vec => {
            return one(st.clone(), a[0].clone());
        }
        "std::vec::Vec::<T, A>::as_slice" | "std::vec::Vec::<T, A>::as_mut_slice" => return one(st.clone(), a[0].clone()),
        "std::ops::Deref::deref" | "std::convert::AsRef::as_ref" | "std::borrow::Borrow::borrow" if is_string => {
            let v = st.load_all(&a[0]);
            return one(st.clone(), v);
        }
        "std::string::String::as_str" | "std::borrow::ToOwned::to_owned" | "std::string::String::into_boxed_str" => {
            let v = st.load_all(&a[0]);
            return one(st.clone(), v);
        }
        "std::string::ToString::to_string" if is_str_ty(e.ir, c.dargs[0]) => {
            let v = st.load_all(&a[0]);
            return one(st.clone(), v);
        }
        "std::convert::From::from" | "std::convert::Into::into" if is_string || c.dargs.get(1).map(|t| is_str_ty(e.ir, *t)).unwrap_or(false) => {
            let v = st.load_all(&a[0]);
            return one(st.clone(), v);
        }
        "std::hint::must_use" | "std::convert::identity" | "std::hint::black_box" => return one(st.clone(), a[0].clone()),
        "std::vec::Vec::<T, A>::push" => {
            let mut st = st.clone();
            if let Some(p) = st.last_ptr(&a[0]) {
                if let Val::List(l) = st.read_ptr(&p) {
                    let mut l = l.to_vec();
                    l.push(a[1].clone());
                    st.write_ptr(&p, Val::List(Rc::new(l)));
                    return one(st, unit());
                }
                if matches!(st.read_ptr(&p), Val::Any | Val::Top) {
                    return one(st, unit());
                }
            }
        }
        "std::vec::Vec::<T, A>::pop" => {
            let mut st = st.clone();
            if let Some(p) = st.last_ptr(&a[0]) {
                if let Val::List(l) = st.read_ptr(&p) {
                    let mut l = l.to_vec();
                    let v = l.pop();
                    st.write_ptr(&p, Val::List(Rc::new(l)));
                    return one(st, v.map(some).unwrap_or_else(none));
                }
            }
        }
        "std::vec::Vec::<T, A>::reserve" | "std::vec::Vec::<T, A>::shrink_to_fit" | "std::string::String::reserve" | "std::string::String::shrink_to_fit" => return one(st.clone(), unit()),
        "std::vec::Vec::<T, A>::insert" => {
            if let (Some(l), Val::Int(i)) = (list(st, &a[0]), st.load_all(&a[1])) {
                if let (Some(p), true) = (st.last_ptr(&a[0]), (0..=l.len() as i128).contains(&i)) {
                    let mut st = st.clone();
                    let mut l = (*l).clone();
                    l.insert(i as usize, a[2].clone());
                    st.write_ptr(&p, Val::List(Rc::new(l)));
                    return one(st, unit());
                }
            }
        }
        "std::vec::Vec::<T, A>::append" => {
            let mut st = st.clone();
            if let (Some(p), Some(q)) = (st.last_ptr(&a[0]), st.last_ptr(&a[1])) {
                if let (Val::List(x), Val::List(y)) = (st.read_ptr(&p), st.read_ptr(&q)) {
                    let mut l = x.to_vec();
                    l.extend(y.iter().cloned());
                    st.write_ptr(&p, Val::List(Rc::new(l)));
                    st.write_ptr(&q, Val::List(Rc::new(vec![])));
                    return one(st, unit());
                }
                if matches!(st.read_ptr(&p), Val::Any | Val::Top) || matches!(st.read_ptr(&q), Val::Any | Val::Top) {
                    st.write_ptr(&p, Val::Any);
                    return one(st, unit());
                }
            }
        }
        "std::vec::Vec::<T, A>::len" | "core::slice::<impl [T]>::len" => {
            if let Some(l) = list(st, &a[0]) {
                return one(st.clone(), Val::Int(l.len() as i128));
            }
            return one(st.clone(), unk(&st.load_all(&a[0])));
        }
        "std::vec::Vec::<T, A>::is_empty" | "core::slice::<impl [T]>::is_empty" => {
            if let Some(l) = list(st, &a[0]) {
                return one(st.clone(), b(l.is_empty()));
            }
            return one(st.clone(), unk(&st.load_all(&a[0])));
        }
        "core::slice::<impl [T]>::first" | "core::slice::<impl [T]>::last" | "core::slice::<impl [T]>::last_mut" | "core::slice::<impl [T]>::first_mut" => {
            if let (Some(l), Some(p)) = (list(st, &a[0]), st.last_ptr(&a[0])) {
                let v = if l.is_empty() {
                    none()
                } else {
                    some(elem(&p, if last.starts_with("first") { 0 } else { l.len() - 1 }))
                };
                return one(st.clone(), v);
            }
        }
        "core::slice::<impl [T]>::get" | "core::slice::<impl [T]>::get_mut" => {
            if let (Some(l), Some(p), Val::Int(i)) = (list(st, &a[0]), st.last_ptr(&a[0]), &a[1]) {
                let v = if *i >= 0 && (*i as usize) < l.len() { some(elem(&p, *i as usize)) } else { none() };
                return one(st.clone(), v);
            }
        }
        "std::ops::Index::index" | "std::ops::IndexMut::index_mut" if is_vec => {
            if let (Some(l), Some(p), Val::Int(i)) = (list(st, &a[0]), st.last_ptr(&a[0]), &a[1]) {
                if *i >= 0 && (*i as usize) < l.len() {
                    return one(st.clone(), elem(&p, *i as usize));
                }
                if !st.taint {
                    e.c.panic(e.ir, "index out of bounds", st, site);
                }
                return B::Outs(vec![]);
            }
        }
        "std::iter::IntoIterator::into_iter" if is_vec => {
            if let Val::List(l) = &a[0] {
                return one(st.clone(), Val::ListIter(l.clone()));
            }
        }
        "std::iter::IntoIterator::into_iter" if c.f.is_none() => {
            // &Vec, &[T] or an iterator
            if let (Some(l), Some(p)) = (list(st, &a[0]), st.last_ptr(&a[0])) {
                return one(st.clone(), Val::SIter(p, 0, l.len() as u32));
            }
            return one(st.clone(), a[0].clone());
        }
        "core::slice::<impl [T]>::iter" | "core::slice::<impl [T]>::iter_mut" => {
            if let (Some(l), Some(p)) = (list(st, &a[0]), st.last_ptr(&a[0])) {
                return one(st.clone(), Val::SIter(p, 0, l.len() as u32));
            }
        }
        "std::iter::Iterator::next" | "std::iter::DoubleEndedIterator::next_back" => {
            let back = last == "next_back";
            if let Some(p) = st.last_ptr(&a[0]) {
                let mut st = st.clone();
                match st.read_ptr(&p) {
                    Val::ListIter(l) => {
                        let mut l = l.to_vec();
                        let v = if l.is_empty() { None } else if back { l.pop() } else { Some(l.remove(0)) };
                        st.write_ptr(&p, Val::ListIter(Rc::new(l)));
                        return one(st, v.map(some).unwrap_or_else(none));
                    }
                    Val::SIter(q, lo, hi) => {
                        let v = if lo >= hi { none() } else if back { some(elem(&q, hi as usize - 1)) } else { some(elem(&q, lo as usize)) };
                        let (lo, hi) = if lo >= hi { (lo, hi) } else if back { (lo, hi - 1) } else { (lo + 1, hi) };
                        st.write_ptr(&p, Val::SIter(q, lo, hi));
                        return one(st, v);
                    }
                    _ => (),
                }
            }
        }
        "core::slice::<impl [T]>::contains" => {
            if let Some(l) = list(st, &a[0]) {
                let mut open = vec![st.clone()];
                let mut outs = vec![];
                for x in l.iter() {
                    let mut next = vec![];
                    for s in open {
                        for (s2, v) in e.eq(s, x, &a[1], site) {
                            match v {
                                Val::Int(0) => next.push(s2),
                                Val::Int(_) => outs.push((s2, Val::Int(1))),
                                v => {
                                    outs.push((s2.clone(), v));
                                }
                            }
                        }
                    }
                    open = next;
                }
                outs.extend(open.into_iter().map(|s| (s, Val::Int(0))));
                return B::Outs(outs);
            }
        }
        "std::cmp::PartialEq::eq" | "std::cmp::PartialEq::ne" if c.f.is_none() => {
            let neg = last == "ne";
            let outs = e.eq(st.clone(), &a[0], &a[1], site);
            return B::Outs(
                outs.into_iter()
                    .map(|(s, v)| {
                        let v = match v {
                            Val::Int(i) if neg => b(i == 0),
                            v => v,
                        };
                        (s, v)
                    })
                    .collect(),
            );
        }
        "std::ops::Add::add" if is_string => {
            let v = cat(&st.load_all(&a[0]), &st.load_all(&a[1]));
            return one(st.clone(), v);
        }
        "std::ops::AddAssign::add_assign" | "std::string::String::push_str" | "std::string::String::push" if is_string || last.starts_with("push") => {
            let mut st = st.clone();
            if let Some(p) = st.last_ptr(&a[0]) {
                let y = match st.load_all(&a[1]) {
                    Val::Int(c) => Val::Str(Rc::from(char::from_u32(c as u32).unwrap_or('?').to_string())),
                    v => v,
                };
                let v = cat(&st.read_ptr(&p), &y);
                st.write_ptr(&p, v);
                return one(st, unit());
            }
        }
        "std::cell::Cell::<T>::new" => return one(st.clone(), a[0].clone()),
        "std::cell::Cell::<T>::get" => {
            let v = st.load(&a[0]);
            return one(st.clone(), v);
        }
        "std::cell::Cell::<T>::set" => {
            let mut st = st.clone();
            if let Val::Ref(p) = &a[0] {
                st.write_ptr(p, a[1].clone());
            }
            return one(st, unit());
        }
        "std::mem::replace" | "std::cell::Cell::<T>::replace" => {
            let mut st = st.clone();
            if let Val::Ref(p) = &a[0] {
                let v = st.read_ptr(p);
                st.write_ptr(p, a[1].clone());
                return one(st, v);
            }
        }
        "std::mem::take" => {
            let mut st = st.clone();
            if let Val::Ref(p) = &a[0] {
                let v = st.read_ptr(p);
                let dv = match &v {
                    Val::List(_) => Val::List(Rc::new(vec![])),
                    Val::Str(_) => Val::Str(Rc::from("")),
                    Val::Int(_) => Val::Int(0),
                    _ => return B::Unknown("mem::take".into()),
                };
                st.write_ptr(p, dv);
                return one(st, v);
            }
        }
        "std::mem::swap" => {
            let mut st = st.clone();
            if let (Val::Ref(p), Val::Ref(q)) = (&a[0], &a[1]) {
                let (x, y) = (st.read_ptr(p), st.read_ptr(q));
                st.write_ptr(p, y);
                st.write_ptr(q, x);
                return one(st, unit());
            }
        }
        "std::mem::drop" | "std::mem::forget" => return one(st.clone(), unit()),
        "std::boxed::Box::<T>::new_uninit" => {
            let mut st = st.clone();
            let r = st.alloc_v(Val::Un);
            return one(st, agg(0, vec![r]));
        }
        "std::boxed::box_assume_init_into_vec_unsafe" => {
            let mut st = st.clone();
            if let Val::Agg(_, f) = &a[0] {
                if let Some(Val::Ref(p)) = f.first() {
                    let v = deep_list(&st.read_ptr(p));
                    st.write_ptr(p, Val::Un);
                    if let Some(v) = v {
                        return one(st, v);
                    }
                }
            }
        }
        "std::fmt::format" => return one(st.clone(), a[0].clone()),
        _ if d.starts_with("core::fmt::rt::Argument") && (last == "new_display" || last == "new_debug") => {
            let v = st.load_all(&a[0]);
            let v = if matches!(v, Val::Agg(FMT, _)) && last == "new_debug" { Val::Any } else { v };
            return one(st.clone(), agg(if last == "new_display" { 701 } else { 702 }, vec![v]));
        }
        _ if d.starts_with("std::fmt::Arguments") && last == "new" => {
            if let (Val::List(t), Val::List(x)) = (st.load_all(&a[0]), st.load_all(&a[1])) {
                return one(st.clone(), fmt_args(&t, &x));
            }
            return one(st.clone(), Val::Any);
        }
        _ if d.starts_with("std::fmt::Arguments") && (last == "from_str" || last == "new_const" || last == "from_str_nonconst") => {
            let v = st.load_all(&a[0]);
            return one(st.clone(), v);
        }
        "std::slice::<impl [T]>::join" | "std::slice::<impl [T]>::concat" => {
            if let Some(l) = list(st, &a[0]) {
                let sep = a.get(1).map(|v| st.load_all(v));
                let mut r = Val::Str(Rc::from(""));
                for (i, x) in l.iter().enumerate() {
                    if i > 0 {
                        if let Some(s) = &sep {
                            r = cat(&r, s);
                        }
                    }
                    r = cat(&r, &st.load_all(x));
                }
                return one(st.clone(), r);
            }
            return one(st.clone(), Val::Any);
        }
        "std::fmt::write" => return one(st.clone(), agg(0, vec![unit()])),
        "std::string::ToString::to_string" => return one(st.clone(), Val::Any),
        _ if d.starts_with("core::fmt::rt::Argument") || d.starts_with("std::fmt::Arguments") => {
            if last == "as_statically_known_str" {
                return one(st.clone(), none());
            }
            return one(st.clone(), Val::Any);
        }
        _ if last == "precondition_check" => return one(st.clone(), unit()),
        _ => (),
    }
    // numbers and texts that are known
    if let (2, "saturating_add" | "saturating_sub" | "integer_min" | "integer_max" | "min" | "max" | "abs_diff", true) = (a.len(), last, c.f.is_none()) {
        if let (Val::Int(x), Val::Int(y)) = (st.load_all(&a[0]), st.load_all(&a[1])) {
            let r = match last {
                "saturating_add" => x + y,
                "saturating_sub" => x - y,
                "abs_diff" => (x - y).abs(),
                "integer_min" | "min" => x.min(y),
                _ => x.max(y),
            };
            let unsigned = full.contains("::u") || selfty.starts_with('u') || c.full.contains("<usize>");
            if r < 0 && last == "saturating_sub" && unsigned {
                return one(st.clone(), Val::Int(0));
            }
            if (0..128).contains(&r) && x >= 0 && y >= 0 {
                return one(st.clone(), Val::Int(r));
            }
        }
    }
    if c.f.is_none() && (d.starts_with("std::string::String") || d.starts_with("core::str::<impl str>") || d.starts_with("std::str::<impl str>")) {
        let x = a.first().map(|v| st.load_all(v));
        let y = a.get(1).map(|v| st.load_all(v));
        if let Some(Val::Str(x)) = x {
            let r = match (last, &y) {
                ("len", _) => Some(Val::Int(x.len() as i128)),
                ("is_empty", _) => Some(b(x.is_empty())),
                ("repeat", Some(Val::Int(n))) if (0..1000).contains(n) && x.len() < 100 => Some(Val::Str(Rc::from(x.repeat(*n as usize)))),
                ("truncate", Some(Val::Int(n))) if (0..=x.len() as i128).contains(n) && x.is_ascii() => {
                    let mut st = st.clone();
                    if let Some(p) = st.last_ptr(&a[0]) {
                        st.write_ptr(&p, Val::Str(Rc::from(&x[..*n as usize])));
                        return one(st, unit());
                    }
                    None
                }
                ("clear", _) => {
                    let mut st = st.clone();
                    if let Some(p) = st.last_ptr(&a[0]) {
                        st.write_ptr(&p, Val::Str(Rc::from("")));
                        return one(st, unit());
                    }
                    None
                }
                _ => None,
            };
            if let Some(r) = r {
                return one(st.clone(), r);
            }
        }
    }
    if full.starts_with("core::char::methods") || d.starts_with("core::char::methods") || d.starts_with("std::char::methods") {
        if let Val::Int(i) = st.load_all(&a[0]) {
            if let Some(ch) = char::from_u32(i as u32) {
                let v = match last {
                    "is_ascii_whitespace" => b(ch.is_ascii_whitespace()),
                    "is_ascii_digit" => b(ch.is_ascii_digit()),
                    "is_ascii_alphabetic" => b(ch.is_ascii_alphabetic()),
                    "is_ascii_alphanumeric" => b(ch.is_ascii_alphanumeric()),
                    "is_whitespace" => b(ch.is_whitespace()),
                    "is_alphabetic" => b(ch.is_alphabetic()),
                    "is_alphanumeric" => b(ch.is_alphanumeric()),
                    "is_numeric" => b(ch.is_numeric()),
                    "is_ascii" => b(ch.is_ascii()),
                    "is_ascii_punctuation" => b(ch.is_ascii_punctuation()),
                    "len_utf8" => Val::Int(ch.len_utf8() as i128),
                    _ => return B::No,
                };
                return one(st.clone(), v);
            }
        }
    }
    B::No
}
fn unk(v: &Val) -> Val {
    match v {
        Val::Any => Val::Any,
        _ => Val::Top,
    }
}
/// the list inside the wrappers of an uninitialised box
fn deep_list(v: &Val) -> Option<Val> {
    match v {
        Val::List(_) => Some(v.clone()),
        Val::Agg(_, f) => f.iter().rev().find_map(deep_list),
        _ => None,
    }
}
/// formatted text that is not a constant: literal pieces and values in turn
pub const FMT: u32 = 700;
/// a compiled format template with its arguments
fn fmt_args(t: &[Val], x: &[Val]) -> Val {
    let bytes: Vec<u8> = t.iter().map(|v| if let Val::Int(i) = v { *i as u8 } else { 0 }).collect();
    let mut out: Vec<Val> = vec![];
    let (mut i, mut n) = (0, 0);
    while i < bytes.len() && bytes[i] != 0 {
        let k = bytes[i] as usize;
        if k == 0xc0 {
            match x.get(n) {
                Some(Val::Agg(701, f)) => match &f[0] {
                    // a text at the front is continued
                    Val::Agg(FMT, p) if out.is_empty() && p.len() < 12 => out.extend(p.iter().cloned()),
                    Val::Agg(FMT, _) => out.push(Val::Any),
                    v => out.push(v.clone()),
                },
                Some(Val::Agg(702, f)) => out.push(agg(702, vec![f[0].clone()])),
                _ => return Val::Any,
            }
            n += 1;
            i += 1;
        } else if k < 0x80 && i + 1 + k <= bytes.len() {
            out.push(Val::Str(Rc::from(String::from_utf8_lossy(&bytes[i + 1..i + 1 + k]).to_string())));
            i += 1 + k;
        } else {
            return Val::Any;
        }
    }
    let mut r: Vec<Val> = vec![];
    for v in out {
        match (r.last_mut(), &v) {
            (Some(Val::Str(a)), Val::Str(b)) => *a = Rc::from(format!("{a}{b}")),
            _ => r.push(v),
        }
    }
    if r.is_empty() {
        return Val::Str(Rc::from(""));
    }
    if r.len() == 1 && matches!(r[0], Val::Str(_)) {
        return r[0].clone();
    }
    agg(FMT, r)
}
fn cat(x: &Val, y: &Val) -> Val {
    match (x, y) {
        (Val::Str(a), Val::Str(c)) => Val::Str(Rc::from(format!("{a}{c}"))),
        _ => Val::Any,
    }
}
