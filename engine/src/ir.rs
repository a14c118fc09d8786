//! The dumped compiler IR (MIR) of the analysed crate.
use serde_json::Value as J;
use std::rc::Rc;

#[derive(Debug, Clone)]
pub enum Proj {
    Deref,
    Field(u32, usize),
    Index(usize),
    Const(i64, bool),
    Sub(i64, i64, bool),
    Down(u32),
}
#[derive(Debug, Clone)]
pub struct Place {
    pub l: usize,
    pub p: Vec<Proj>,
}
#[derive(Debug, Clone)]
pub enum Op {
    Copy(Place),
    Move(Place),
    K(K),
}
#[derive(Debug, Clone)]
pub enum K {
    Int(i128, usize),
    Str(Rc<str>),
    Ref(Box<K>),
    Arr(Vec<K>),
    Adt(u32, Vec<K>, usize),
    Zst(usize),
    Unk,
}
#[derive(Debug, Clone)]
pub enum Rv {
    Use(Op),
    Rep(Op, i64),
    Ref(Place, bool),
    Cast(String, Op, usize, usize),
    Bin(String, Op, Op),
    Un(String, Op),
    Disc(Place),
    Agg(String, usize, u32, Vec<Op>),
    Unk,
}
#[derive(Debug, Clone)]
pub enum St {
    Assign(Place, Rv, Rc<str>),
    SetDisc(Place, u32),
    Dead(usize),
    Live(usize),
    Nop,
}
#[derive(Debug, Clone, Default)]
pub struct Callee {
    pub decl: String,
    pub dargs: Vec<usize>,
    pub path: String,
    pub args: Vec<usize>,
    pub kind: String,
    pub full: String,
    pub f: Option<usize>,
    pub ctor: Option<(usize, u32)>,
    pub lp: Option<Box<Loop>>,
}
/// `from_iter` and `extend`: collection, iterator, item, option of item, what is iterated
#[derive(Debug, Clone)]
pub struct Loop {
    pub t: [usize; 5],
    pub into: Callee,
    pub next: Callee,
}
#[derive(Debug, Clone)]
pub enum Term {
    Goto(usize),
    Switch(Op, Vec<(i128, usize)>, usize, Rc<str>, usize),
    Ret,
    Unreachable,
    Resume,
    Drop(Place, usize, Rc<str>),
    Call(Rc<Callee>, Vec<Op>, Place, Option<usize>, Rc<str>, Vec<usize>),
    Assert(Op, bool, String, usize, Rc<str>),
    Unk,
}
#[derive(Debug)]
pub struct Block {
    pub s: Vec<St>,
    pub t: Term,
    pub cleanup: bool,
}
#[derive(Debug)]
pub struct Func {
    pub path: String,
    pub full: String,
    pub krate: String,
    pub span: String,
    pub args: usize,
    pub locals: Vec<usize>,
    pub names: Vec<(usize, String)>,
    pub blocks: Vec<Block>,
    pub join: Vec<bool>,
}
#[derive(Debug, Clone)]
pub struct Variant {
    pub name: String,
    pub d: i128,
    pub f: Vec<(String, usize)>,
}
#[derive(Debug, Clone)]
pub struct Ty {
    pub s: String,
    pub k: String,
    pub bits: u32,
    pub e: Option<usize>,
    pub n: Option<usize>,
    pub f: Vec<usize>,
    pub path: String,
    pub is_enum: bool,
    pub local: bool,
    pub args: Vec<usize>,
    pub v: Vec<Variant>,
    pub body: Option<usize>,
    pub callee: Option<Rc<Callee>>,
}
pub struct Ir {
    pub fns: Vec<Func>,
    pub types: Vec<Ty>,
    pub statics: usize,
    pub unsafe_fns: usize,
}

fn us(j: &J) -> usize {
    j.as_u64().unwrap_or_else(|| panic!("not a number: {j}")) as usize
}
fn big(j: &J) -> i128 {
    if let Some(i) = j.as_i64() {
        i as i128
    } else if let Some(u) = j.as_u64() {
        u as i128
    } else {
        j.as_str().and_then(|s| s.parse().ok()).unwrap_or(0)
    }
}
fn st(j: &J) -> String {
    j.as_str().unwrap_or("").to_string()
}
fn rs(j: &J) -> Rc<str> {
    Rc::from(j.as_str().unwrap_or(""))
}
fn place(j: &J) -> Place {
    let mut p = Vec::new();
    for e in j[1].as_array().unwrap() {
        p.push(match e[0].as_str().unwrap() {
            "*" => Proj::Deref,
            "f" => Proj::Field(us(&e[1]) as u32, us(&e[2])),
            "i" => Proj::Index(us(&e[1])),
            "c" => Proj::Const(e[1].as_i64().unwrap(), e[3].as_bool().unwrap()),
            "s" => Proj::Sub(e[1].as_i64().unwrap(), e[2].as_i64().unwrap(), e[3].as_bool().unwrap()),
            "d" => Proj::Down(us(&e[1]) as u32),
            x => panic!("projection {x}"),
        });
    }
    Place { l: us(&j[0]), p }
}
fn konst(j: &J) -> K {
    match j["c"].as_str().unwrap_or("?") {
        "i" => K::Int(big(&j["v"]), us(&j["t"])),
        "s" => K::Str(rs(&j["v"])),
        "r" => K::Ref(Box::new(konst(&j["v"]))),
        "a" => K::Arr(j["v"].as_array().unwrap().iter().map(konst).collect()),
        "d" => K::Adt(
            j["x"].as_u64().unwrap_or(0) as u32,
            j["v"].as_array().map(|v| v.iter().map(konst).collect()).unwrap_or_default(),
            us(&j["t"]),
        ),
        "z" => K::Zst(us(&j["t"])),
        _ => K::Unk,
    }
}
fn op(j: &J) -> Op {
    match j[0].as_str().unwrap() {
        "cp" => Op::Copy(place(&j[1])),
        "mv" => Op::Move(place(&j[1])),
        "k" => Op::K(konst(&j[1])),
        // runtime checks (overflow checks on)
        _ => Op::K(K::Int(1, 0)),
    }
}
fn rv(j: &J) -> Rv {
    match j[0].as_str().unwrap() {
        "use" => Rv::Use(op(&j[1])),
        "rep" => Rv::Rep(op(&j[1]), j[2].as_i64().unwrap_or(-1)),
        "ref" => Rv::Ref(place(&j[1]), j[2].as_bool().unwrap_or(false)),
        "cast" => Rv::Cast(st(&j[1]), op(&j[2]), us(&j[3]), us(&j[4])),
        "bin" => Rv::Bin(st(&j[1]), op(&j[2]), op(&j[3])),
        "un" => Rv::Un(st(&j[1]), op(&j[2])),
        "disc" => Rv::Disc(place(&j[1])),
        "agg" => Rv::Agg(
            st(&j[1]),
            j[2].as_u64().unwrap_or(0) as usize,
            j[3].as_u64().unwrap_or(0) as u32,
            j[4].as_array().unwrap().iter().map(op).collect(),
        ),
        _ => Rv::Unk,
    }
}
pub fn callee(j: &J) -> Callee {
    let v = |x: &J| x.as_array().map(|a| a.iter().map(us).collect()).unwrap_or_default();
    Callee {
        decl: st(&j["decl"]),
        dargs: v(&j["dargs"]),
        path: st(&j["path"]),
        args: v(&j["args"]),
        kind: st(&j["kind"]),
        full: st(&j["full"]),
        f: j["fn"].as_u64().map(|x| x as usize),
        ctor: j["ctor"].as_array().map(|a| (us(&a[0]), us(&a[1]) as u32)),
        lp: j.get("loop").filter(|x| x.is_object()).map(|l| {
            Box::new(Loop {
                t: [us(&l["self"]), us(&l["iter"]), us(&l["item"]), us(&l["opt"]), us(&l["src"])],
                into: callee(&l["into"]),
                next: callee(&l["next"]),
            })
        }),
    }
}
fn term(j: &J) -> Term {
    match j[0].as_str().unwrap() {
        "goto" => Term::Goto(us(&j[1])),
        "switch" => Term::Switch(
            op(&j[1]),
            j[2].as_array().unwrap().iter().map(|x| (big(&x[0]), us(&x[1]))).collect(),
            us(&j[3]),
            rs(&j[4]),
            us(&j[5]),
        ),
        "ret" => Term::Ret,
        "unreachable" => Term::Unreachable,
        "resume" => Term::Resume,
        "drop" => Term::Drop(place(&j[1]), us(&j[2]), rs(&j[3])),
        "call" => Term::Call(
            Rc::new(callee(&j[1])),
            j[2].as_array().unwrap().iter().map(op).collect(),
            place(&j[3]),
            j[4].as_u64().map(|x| x as usize),
            rs(&j[5]),
            j[6].as_array().map(|a| a.iter().map(us).collect()).unwrap_or_default(),
        ),
        "assert" => Term::Assert(op(&j[1]), j[2].as_bool().unwrap(), st(&j[3]), us(&j[4]), rs(&j[5])),
        _ => Term::Unk,
    }
}
impl Term {
    pub fn succ(&self) -> Vec<usize> {
        match self {
            Term::Goto(b) => vec![*b],
            Term::Switch(_, v, o, _, _) => v.iter().map(|x| x.1).chain([*o]).collect(),
            Term::Drop(_, b, _) => vec![*b],
            Term::Call(_, _, _, t, _, _) => t.iter().cloned().collect(),
            Term::Assert(_, _, _, b, _) => vec![*b],
            _ => vec![],
        }
    }
}
fn func(j: &J) -> Func {
    let mut blocks: Vec<Block> = j["blocks"]
        .as_array()
        .unwrap()
        .iter()
        .map(|b| Block {
            s: b["s"]
                .as_array()
                .unwrap()
                .iter()
                .map(|s| match s[0].as_str().unwrap() {
                    "=" => St::Assign(place(&s[1]), rv(&s[2]), rs(&s[3])),
                    "sd" => St::SetDisc(place(&s[1]), us(&s[2]) as u32),
                    "dead" => St::Dead(us(&s[1])),
                    "live" => St::Live(us(&s[1])),
                    _ => St::Nop,
                })
                .collect(),
            t: term(&b["t"]),
            cleanup: b["cleanup"].as_bool().unwrap_or(false),
        })
        .collect();
    // `any` and `all` compare with a promoted constant that is not in the metadata of the standard library
    let end = match j["full"].as_str().unwrap_or("").rsplit_once("Iterator::") {
        Some((p, "any")) if p.starts_with("core::") => Some(1),
        Some((p, "all")) if p.starts_with("core::") => Some(0),
        _ => None,
    };
    if let Some(var) = end {
        for b in &mut blocks {
            if let Term::Call(c, a, ..) = &mut b.t {
                if c.path.contains("ControlFlow") && c.decl.ends_with("PartialEq::eq") && c.args.len() == 2 {
                    for o in a.iter_mut().filter(|o| matches!(o, Op::K(K::Unk))) {
                        let unit = K::Adt(0, vec![], c.args[0]);
                        *o = Op::K(K::Ref(Box::new(K::Adt(var, vec![unit], c.dargs[0]))));
                    }
                }
            }
        }
    }
    let mut preds = vec![0; blocks.len()];
    for b in &blocks {
        if !b.cleanup {
            for s in b.t.succ() {
                preds[s] += 1;
            }
        }
    }
    Func {
        path: st(&j["path"]),
        full: st(&j["full"]),
        krate: st(&j["crate"]),
        span: st(&j["span"]),
        args: us(&j["args"]),
        locals: j["locals"].as_array().unwrap().iter().map(us).collect(),
        names: j["names"].as_array().map(|v| v.iter().map(|x| (us(&x[0]), st(&x[1]))).collect()).unwrap_or_default(),
        join: preds.iter().map(|n| *n > 1).collect(),
        blocks,
    }
}
pub fn load(path: &str) -> Ir {
    let txt = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("cannot read {path}: {e}");
        std::process::exit(3)
    });
    let j: J = serde_json::from_str(&txt).expect("bad dump");
    let types = j["types"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| Ty {
            s: st(&t["s"]),
            k: st(&t["k"]),
            bits: t["bits"].as_u64().unwrap_or(0) as u32,
            e: t["e"].as_u64().map(|x| x as usize),
            n: t["n"].as_u64().map(|x| x as usize),
            f: t["f"].as_array().map(|v| v.iter().map(us).collect()).unwrap_or_default(),
            path: st(&t["path"]),
            is_enum: t["enum"].as_bool().unwrap_or(false),
            local: t["local"].as_bool().unwrap_or(false),
            args: t["args"].as_array().map(|v| v.iter().map(us).collect()).unwrap_or_default(),
            v: t["v"]
                .as_array()
                .map(|v| {
                    v.iter()
                        .map(|x| Variant {
                            name: st(&x["name"]),
                            d: big(&x["d"]),
                            f: x["f"].as_array().unwrap().iter().map(|y| (st(&y[0]), us(&y[1]))).collect(),
                        })
                        .collect()
                })
                .unwrap_or_default(),
            body: t["body"].as_u64().map(|x| x as usize),
            callee: t.get("callee").filter(|x| x.is_object()).map(|x| Rc::new(callee(x))),
        })
        .collect();
    let mut ir = Ir {
        fns: j["fns"].as_array().unwrap().iter().map(func).collect(),
        types,
        statics: j["statics"].as_u64().map(|x| x as usize).or(j["statics"].as_array().map(|v| v.len())).unwrap_or(0),
        unsafe_fns: j["unsafe_fns"].as_u64().map(|x| x as usize).or(j["unsafe_fns"].as_array().map(|v| v.len())).unwrap_or(0),
    };
    ir.loops();
    ir
}
impl Ir {
    /// `from_iter` and `extend` become loops that draw and push
    fn loops(&mut self) {
        let mut made: std::collections::HashMap<(String, [usize; 5]), usize> = Default::default();
        for f in 0..self.fns.len() {
            for b in 0..self.fns[f].blocks.len() {
                let Term::Call(c, ..) = &self.fns[f].blocks[b].t else { continue };
                if c.f.is_some() || c.lp.is_none() {
                    continue;
                }
                let mut c = (**c).clone();
                self.make_loop(&mut c, &mut made);
                if let Term::Call(x, ..) = &mut self.fns[f].blocks[b].t {
                    *x = Rc::new(c);
                }
            }
        }
        for t in 0..self.types.len() {
            if let Some(c) = &self.types[t].callee {
                if c.f.is_none() && c.lp.is_some() {
                    let mut c = (**c).clone();
                    self.make_loop(&mut c, &mut made);
                    self.types[t].callee = Some(Rc::new(c));
                }
            }
        }
    }
    fn make_loop(&mut self, c: &mut Callee, made: &mut std::collections::HashMap<(String, [usize; 5]), usize>) {
        let l = c.lp.clone().unwrap();
        if let Some(f) = made.get(&(c.decl.clone(), l.t)) {
            c.f = Some(*f);
            return;
        }
        let [coll, iter, item, opt, src] = l.t;
        let vec = self.types[coll].s.starts_with("std::vec::Vec<");
        let string = self.types[coll].s == "std::string::String";
        if !vec && !string {
            return;
        }
        let extend = c.decl.ends_with("extend");
        let push = Callee {
            decl: if vec { "std::vec::Vec::<T, A>::push" } else if self.types[item].k == "char" { "std::string::String::push" } else { "std::string::String::push_str" }.into(),
            path: "push".into(),
            full: "push".into(),
            dargs: vec![item],
            ..Default::default()
        };
        let new = Callee {
            decl: if vec { "std::vec::Vec::<T>::new" } else { "std::string::String::new" }.into(),
            path: "new".into(),
            full: "new".into(),
            dargs: vec![item],
            ..Default::default()
        };
        let unit = self.types.iter().position(|t| t.s == "()").unwrap_or(0);
        let mut refty = |ir: &mut Ir, e: usize| {
            ir.types.push(Ty { s: format!("&mut {}", ir.types[e].s), k: "ref".into(), bits: 0, e: Some(e), n: None, f: vec![], path: String::new(), is_enum: false, local: false, args: vec![], v: vec![], body: None, callee: None });
            ir.types.len() - 1
        };
        let rv = refty(self, coll);
        let ri = refty(self, iter);
        let pl = |l: usize| Place { l, p: vec![] };
        let sp: Rc<str> = Rc::from("collect");
        let call = |c: &Callee, a: Vec<Op>, d: usize, t: usize| Term::Call(Rc::new(c.clone()), a, pl(d), Some(t), sp.clone(), vec![]);
        let blk = |s: Vec<St>, t: Term| Block { s, t, cleanup: false };
        // 0: result, 1, 2: arguments; 3: collection, 4: iterator, 5: &mut iterator, 6: option,
        // 7: discriminant, 8: item, 9: &mut collection, 10: ()
        let isz = self.types.iter().position(|t| t.s == "isize").unwrap_or(0);
        let (srcarg, locals) = if extend { (2, vec![unit, rv, src, coll, iter, ri, opt, isz, item, rv, unit]) } else { (1, vec![coll, src, src, coll, iter, ri, opt, isz, item, rv, unit]) };
        let target = if extend { Place { l: 1, p: vec![Proj::Deref] } } else { pl(0) };
        let blocks = vec![
            if extend { blk(vec![], Term::Goto(1)) } else { blk(vec![], call(&new, vec![], 0, 1)) },
            blk(vec![], call(&l.into, vec![Op::Move(pl(srcarg))], 4, 2)),
            blk(vec![St::Assign(pl(5), Rv::Ref(pl(4), true), sp.clone())], call(&l.next, vec![Op::Move(pl(5))], 6, 3)),
            blk(vec![St::Assign(pl(7), Rv::Disc(pl(6)), sp.clone())], Term::Switch(Op::Move(pl(7)), vec![(0, 5)], 4, sp.clone(), isz)),
            blk(
                vec![
                    St::Assign(pl(8), Rv::Use(Op::Move(Place { l: 6, p: vec![Proj::Down(1), Proj::Field(0, item)] })), sp.clone()),
                    St::Assign(pl(9), Rv::Ref(target, true), sp.clone()),
                ],
                call(&push, vec![Op::Move(pl(9)), Op::Move(pl(8))], 10, 2),
            ),
            blk(vec![], Term::Ret),
        ];
        let mut preds = vec![0; blocks.len()];
        for b in &blocks {
            for s in b.t.succ() {
                preds[s] += 1;
            }
        }
        self.fns.push(Func {
            path: c.path.clone(),
            full: format!("{} loop", c.full),
            krate: "alloc".into(),
            span: "collect".into(),
            args: if extend { 2 } else { 1 },
            locals,
            names: vec![],
            join: preds.iter().map(|n| *n > 1).collect(),
            blocks,
        });
        made.insert((c.decl.clone(), l.t), self.fns.len() - 1);
        c.f = Some(self.fns.len() - 1);
    }
    /// `Peekable::next_if` in terms of `peek` and `next`
    pub fn patch_next_if(&mut self) {
        for i in 0..self.fns.len() {
            let f = &self.fns[i];
            if f.krate != "core" || !f.full.contains("::peekable::") || !f.full.ends_with("::next_if") || f.args != 2 {
                continue;
            }
            let Some(call) = f.blocks.iter().find_map(|b| match &b.t {
                Term::Call(c, ..) if c.decl.contains("::call_") => Some(c.clone()),
                _ => None,
            }) else {
                continue;
            };
            let l = f.locals.clone();
            let tuple = call.dargs.get(1).cloned().unwrap_or(l[0]);
            let item = self.types[tuple].f.first().or(self.types[tuple].args.first()).cloned().unwrap_or(l[0]);
            let find = |s: &str| self.types.iter().position(|t| t.s == s).unwrap_or(0);
            let (isz, boo) = (find("isize"), find("bool"));
            let pl = |l: usize| Place { l, p: vec![] };
            let sp: Rc<str> = Rc::from("next_if");
            let named = |n: &str| Rc::new(Callee { decl: format!("std::iter::Peekable::<I>::{n}"), path: n.into(), full: n.into(), dargs: vec![], ..Default::default() });
            let blk = |s: Vec<St>, t: Term| Block { s, t, cleanup: false };
            // 3: option of a reference, 4: discriminant, 5: reference, 6: arguments, 7: answer
            let locals = vec![l[0], l[1], l[2], l[0], isz, item, tuple, boo];
            let blocks = vec![
                blk(vec![], Term::Call(named("peek"), vec![Op::Copy(pl(1))], pl(3), Some(1), sp.clone(), vec![])),
                blk(vec![St::Assign(pl(4), Rv::Disc(pl(3)), sp.clone())], Term::Switch(Op::Move(pl(4)), vec![(0, 4)], 2, sp.clone(), isz)),
                blk(
                    vec![
                        St::Assign(pl(5), Rv::Use(Op::Copy(Place { l: 3, p: vec![Proj::Down(1), Proj::Field(0, item)] })), sp.clone()),
                        St::Assign(pl(6), Rv::Agg("tuple".into(), tuple, 0, vec![Op::Copy(pl(5))]), sp.clone()),
                    ],
                    Term::Call(call, vec![Op::Move(pl(2)), Op::Move(pl(6))], pl(7), Some(3), sp.clone(), vec![]),
                ),
                blk(vec![], Term::Switch(Op::Move(pl(7)), vec![(0, 4)], 5, sp.clone(), boo)),
                blk(vec![St::Assign(pl(0), Rv::Agg("adt".into(), l[0], 0, vec![]), sp.clone())], Term::Ret),
                blk(vec![], Term::Call(named("next"), vec![Op::Move(pl(1))], pl(0), Some(6), sp.clone(), vec![])),
                blk(vec![], Term::Ret),
            ];
            let mut preds = vec![0; blocks.len()];
            for b in &blocks {
                for s in b.t.succ() {
                    preds[s] += 1;
                }
            }
            let f = &mut self.fns[i];
            f.join = preds.iter().map(|n| *n > 1).collect();
            f.locals = locals;
            f.names = vec![];
            f.blocks = blocks;
        }
    }
    /// Fieldless enums are represented by their discriminant
    pub fn is_cenum(&self, t: usize) -> bool {
        let t = &self.types[t];
        t.is_enum && !t.v.is_empty() && t.v.iter().all(|v| v.f.is_empty())
    }
    pub fn field(&self, t: usize, name: &str) -> Option<usize> {
        let t = &self.types[t];
        t.v.first().and_then(|v| v.f.iter().position(|f| f.0 == name))
    }
    pub fn find_ty(&self, s: &str) -> Option<usize> {
        self.types.iter().position(|t| t.s == s)
    }
    pub fn adt(&self, suffix: &str) -> Option<usize> {
        self.types.iter().position(|t| t.k == "adt" && t.local && (t.path == suffix || t.path.ends_with(&format!("::{suffix}"))))
    }
    pub fn option_of(&self, elem: usize) -> Option<usize> {
        self.types.iter().position(|t| t.k == "adt" && t.path == "std::option::Option" && t.args.first() == Some(&elem))
    }
}
