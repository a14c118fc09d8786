//! Interprocedural abstract interpretation of MIR: path-sensitive abstract states, one
//! summary (set of exit states) per function and abstract entry state, tabulated to a fixpoint.
use crate::ir::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;

pub type Id = u32;
pub const ENTRY0: Id = 10_000;
pub const NEW0: Id = 20_000;

/// Client-defined scalar or handle; `t & OWN` marks handles that own what they denote.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct G {
    pub t: u8,
    pub id: Id,
    pub x: i32,
    pub y: i32,
}
pub const OWN: u8 = 0x80;
pub fn g(t: u8, id: Id, x: i32, y: i32) -> Val {
    Val::G(G { t, id, x, y })
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Val {
    /// not initialised, or moved out
    Un,
    Int(i128),
    /// any value is really possible
    Any,
    /// unknown: nothing may be concluded from a branch on it
    Top,
    Agg(u32, Rc<Vec<Val>>),
    Ref(Ptr),
    Str(Rc<str>),
    Fn(usize),
    List(Rc<Vec<Val>>),
    ListIter(Rc<Vec<Val>>),
    SIter(Ptr, u32, u32),
    G(G),
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Ptr {
    pub b: Base,
    pub p: Vec<u32>,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Base {
    Obj(Id),
    K(Rc<Val>),
}
pub fn unit() -> Val {
    Val::Agg(0, Rc::new(vec![]))
}
pub fn agg(v: u32, f: Vec<Val>) -> Val {
    Val::Agg(v, Rc::new(f))
}
pub fn none() -> Val {
    agg(0, vec![])
}
pub fn some(v: Val) -> Val {
    agg(1, vec![v])
}
pub fn b(x: bool) -> Val {
    Val::Int(x as i128)
}
pub fn refk(v: Val) -> Val {
    Val::Ref(Ptr { b: Base::K(Rc::new(v)), p: vec![] })
}

/// Client objects that live in abstract memory
pub trait Node: Clone + Eq + Ord + Hash + Debug {
    fn ids(&self, f: &mut dyn FnMut(Id));
    fn rename(&mut self, f: &dyn Fn(Id) -> Option<Id>);
    /// back from a call, into which it went as `old`
    fn returned(&mut self, _old: &Self) {}
}
/// Client ghost state
pub trait Ghost: Clone + Eq + Ord + Hash + Debug + Default {
    /// did anything happen that bounds the number of repetitions since the flag was cleared
    fn progress(&self) -> bool {
        true
    }
    fn set_progress(&mut self, _p: bool) {}
    /// the same, since the function was entered (up to the last control point)
    fn total(&self) -> bool {
        true
    }
    fn set_total(&mut self, _p: bool) {}
    fn roots(&self, f: &mut dyn FnMut(Id));
    fn rename(&mut self, f: &dyn Fn(Id) -> Option<Id>);
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Obj<N> {
    V(Val),
    C(N),
}
pub struct State<C: Client> {
    pub mem: BTreeMap<Id, Obj<C::N>>,
    pub g: C::H,
    pub taint: bool,
    pub next: Id,
}
impl<C: Client> PartialEq for State<C> {
    fn eq(&self, o: &Self) -> bool {
        self.taint == o.taint && self.next == o.next && self.g == o.g && self.mem == o.mem
    }
}
impl<C: Client> Eq for State<C> {}
impl<C: Client> Hash for State<C> {
    fn hash<X: std::hash::Hasher>(&self, h: &mut X) {
        self.mem.hash(h);
        self.g.hash(h);
        self.taint.hash(h);
    }
}
impl<C: Client> Debug for State<C> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        writeln!(f, "ghost {:?} taint {}", self.g, self.taint)?;
        for (k, v) in &self.mem {
            writeln!(f, "  {k}: {v:?}")?;
        }
        Ok(())
    }
}
impl<C: Client> Clone for State<C> {
    fn clone(&self) -> Self {
        State { mem: self.mem.clone(), g: self.g.clone(), taint: self.taint, next: self.next }
    }
}
pub enum Loc {
    Obj(Id, Vec<u32>),
    /// inside constant memory
    K(Val),
    /// place behind a pointer that is represented by its value
    S(Val),
}

pub type Outs<C> = Vec<(State<C>, Val)>;
pub enum B<C: Client> {
    /// not a built-in of the client
    No,
    Outs(Outs<C>),
    /// continue as a call of this function
    Call(usize, Vec<Val>, State<C>),
    /// results and calls
    Mix(Outs<C>, Vec<(usize, Vec<Val>, State<C>)>),
    Unknown(String),
}

pub trait Client: Sized {
    type N: Node;
    type H: Ghost;
    fn builtin(&mut self, ir: &Ir, c: &Callee, args: &[Val], st: &State<Self>, site: &Site) -> B<Self>;
    /// binary operation with at least one client operand; with overflow flag if asked
    fn bin(&mut self, _ir: &Ir, _op: &str, _a: &Val, _b: &Val, st: State<Self>, ovf: bool, _site: &Site) -> Outs<Self> {
        vec![(st, if ovf { agg(0, vec![Val::Top, Val::Int(0)]) } else { Val::Top })]
    }
    /// split on a client value; None: treat as unknown
    fn switch(&mut self, _ir: &Ir, _g: &G, _t: &[i128], _st: &State<Self>) -> Option<Vec<(State<Self>, usize)>> {
        None
    }
    fn deref(&mut self, _g: &G, _st: &State<Self>) -> Option<Ptr> {
        None
    }
    /// length of a slice
    fn meta(&mut self, _g: &G, _st: &State<Self>) -> Option<Val> {
        None
    }
    /// what follows the first `_from` elements of a slice
    fn rest(&mut self, _g: &G, _from: i64, _st: &State<Self>) -> Option<Val> {
        None
    }
    fn field(&mut self, _g: &G, _i: u32, _st: &State<Self>) -> Option<Val> {
        None
    }
    /// normalise a value that is being read
    fn norm(&mut self, _g: &G, _st: &State<Self>) -> Option<Val> {
        None
    }
    /// value of a struct or enum variant being built (None: the plain aggregate)
    fn agg(&mut self, _ir: &Ir, _ty: usize, _var: u32, _vals: &[Val], _st: &State<Self>) -> Option<Val> {
        None
    }
    /// value stored into a field of type `ty` (None: as it is)
    fn store(&mut self, _ir: &Ir, _ty: usize, _field: u32, _v: &Val, _st: &State<Self>) -> Option<Val> {
        None
    }
    /// called when `owned` are the ids owned by some reachable value
    fn gc(&mut self, _st: &mut State<Self>, _owned: &HashSet<Id>, _reach: &HashSet<Id>, _site: &Site) {}
    /// ghost for the callee; `map` renames caller ids to callee ids, `owned`: owned in the callee
    fn enter(&mut self, _ir: &Ir, _f: usize, st: &State<Self>, map: &HashMap<Id, Id>, _owned: &HashSet<Id>) -> Self::H {
        let mut g = st.g.clone();
        g.rename(&|i| map.get(&i).cloned());
        g
    }
    fn before_call(&mut self, _ir: &Ir, _f: usize, _st: &mut State<Self>) {}
    /// the caller waits; `owned` is owned by the callee now
    fn suspend(&mut self, _st: &mut State<Self>, _owned: &HashSet<Id>) {}
    /// back in the caller: `st` has the merged memory and still the ghost of the caller,
    /// `exit` is already renamed to caller ids, `shared` are the ids the callee had
    fn leave(&mut self, _ir: &Ir, _f: usize, st: &mut State<Self>, exit: Self::H, _shared: &HashSet<Id>, _site: &Site) {
        st.g = exit;
    }
    /// a function returns
    fn at_exit(&mut self, _ir: &Ir, _f: usize, _st: &mut State<Self>) {}
    fn after_call(&mut self, _ir: &Ir, _f: usize, st: State<Self>, _site: &Site) -> Vec<State<Self>> {
        vec![st]
    }
    fn root_exit(&mut self, _ir: &Ir, _st: &State<Self>, _site: &Site) {}
    fn panic(&mut self, _ir: &Ir, _what: &str, _st: &State<Self>, _site: &Site) {}
    fn block(&mut self, _ir: &Ir, _f: usize, _b: usize, _st: &mut State<Self>) {}
    /// a join point where forgetting is allowed
    fn widen(&mut self, _ir: &Ir, _f: usize, _b: usize, _st: &mut State<Self>) {}
}

/// Where we are, for reports
#[derive(Clone)]
pub struct Site {
    pub f: usize,
    pub sum: usize,
    pub func: String,
    pub span: String,
    pub tr: Option<Rc<Trace>>,
}
pub struct Trace {
    pub s: Rc<str>,
    pub up: Option<Rc<Trace>>,
}
impl Site {
    pub fn path(&self) -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        let mut t = self.tr.clone();
        while let Some(x) = t {
            if v.last().map(|l| l.as_str()) != Some(&*x.s) && !x.s.contains("/library/") {
                v.push(x.s.to_string());
            }
            t = x.up.clone();
            if v.len() > 40 {
                break;
            }
        }
        v.reverse();
        v
    }
}

pub struct Cont<C: Client> {
    sum: usize,
    target: usize,
    dest: Place,
    st: State<C>,
    map: HashMap<Id, Id>,
    tr: Option<Rc<Trace>>,
    span: Rc<str>,
    from: u32,
}
pub struct Sum<C: Client> {
    pub f: usize,
    pub exits: Vec<State<C>>,
    exit_set: HashSet<State<C>>,
    conts: Vec<Cont<C>>,
    cont_set: HashSet<(usize, usize, State<C>)>,
    seen: HashMap<(usize, State<C>), u32>,
    pub entry: State<C>,
    entry_node: u32,
    pub caller: Option<(usize, Rc<str>)>,
}
struct Item<C: Client> {
    sum: usize,
    b: usize,
    st: State<C>,
    tr: Option<Rc<Trace>>,
    from: u32,
}

/// tag of "an integer of at least x"
pub const GE: u8 = 1;

pub struct Eng<'a, C: Client> {
    /// integers above this become "at least"
    pub cap: i128,
    pub ir: &'a Ir,
    pub c: C,
    pub sums: Vec<Sum<C>>,
    index: HashMap<(usize, State<C>), usize>,
    work: Vec<Item<C>>,
    pub undecided: BTreeMap<String, usize>,
    pub steps: u64,
    pub max_steps: u64,
    pub roots: HashSet<usize>,
    pub calls: HashSet<(usize, usize)>,
    pub blocks_seen: HashSet<(usize, usize)>,
    pub tainted: u64,
    /// functions with paths that were not followed, since they depend on an unknown value
    pub cut: BTreeMap<String, usize>,
    live: HashMap<usize, Rc<Vec<HashSet<usize>>>>,
    pub debug: bool,
    /// (summary, block) of every control point; edges between them with their progress
    pub nodes: Vec<(usize, usize)>,
    pub edges: HashMap<(u32, u32), bool>,
    pub deadline: std::time::Instant,
}

impl<C: Client> State<C> {
    pub fn new() -> Self {
        State { mem: BTreeMap::new(), g: C::H::default(), taint: false, next: NEW0 }
    }
    pub fn alloc(&mut self, o: Obj<C::N>) -> Id {
        let i = self.next;
        self.next += 1;
        self.mem.insert(i, o);
        i
    }
    pub fn alloc_v(&mut self, v: Val) -> Val {
        let i = self.alloc(Obj::V(v));
        Val::Ref(Ptr { b: Base::Obj(i), p: vec![] })
    }
    pub fn node(&self, i: Id) -> &C::N {
        match &self.mem[&i] {
            Obj::C(n) => n,
            _ => panic!("not a client object"),
        }
    }
    pub fn node_opt(&self, i: Id) -> Option<&C::N> {
        match self.mem.get(&i) {
            Some(Obj::C(n)) => Some(n),
            _ => None,
        }
    }
    pub fn node_mut(&mut self, i: Id) -> &mut C::N {
        match self.mem.get_mut(&i) {
            Some(Obj::C(n)) => n,
            _ => panic!("not a client object"),
        }
    }
    pub fn read_at(&self, id: Id, path: &[u32]) -> Val {
        match self.mem.get(&id) {
            Some(Obj::V(v)) => dig(v, path),
            _ => Val::Un,
        }
    }
    pub fn read_ptr(&self, p: &Ptr) -> Val {
        match &p.b {
            Base::Obj(i) => self.read_at(*i, &p.p),
            Base::K(v) => dig(v, &p.p),
        }
    }
    /// the value behind a reference (or the value itself, when passed by value)
    pub fn load(&self, v: &Val) -> Val {
        match v {
            Val::Ref(p) => self.read_ptr(p),
            v => v.clone(),
        }
    }
    /// follow references to the end
    pub fn load_all(&self, v: &Val) -> Val {
        let mut v = v.clone();
        while let Val::Ref(p) = &v {
            v = self.read_ptr(p);
        }
        v
    }
    /// innermost pointer of a chain of references
    pub fn last_ptr(&self, v: &Val) -> Option<Ptr> {
        let mut v = v.clone();
        let mut last = None;
        while let Val::Ref(p) = &v {
            last = Some(p.clone());
            v = self.read_ptr(last.as_ref().unwrap());
        }
        last
    }
    pub fn write_ptr(&mut self, p: &Ptr, v: Val) {
        if let Base::Obj(i) = &p.b {
            self.write_at(*i, &p.p, v)
        }
    }
    pub fn write_at(&mut self, id: Id, path: &[u32], v: Val) {
        let o = self.mem.entry(id).or_insert(Obj::V(Val::Un));
        if let Obj::V(x) = o {
            *slot(x, path) = v;
        }
    }
}
fn dig(v: &Val, path: &[u32]) -> Val {
    let mut v = v;
    for i in path {
        match v {
            Val::Agg(_, f) | Val::List(f) => match f.get(*i as usize) {
                Some(x) => v = x,
                None => return Val::Un,
            },
            Val::Any => return Val::Any,
            Val::Top => return Val::Top,
            _ => return Val::Un,
        }
    }
    v.clone()
}
fn slot<'a>(v: &'a mut Val, path: &[u32]) -> &'a mut Val {
    let mut v = v;
    for i in path {
        if !matches!(v, Val::Agg(..) | Val::List(_)) {
            *v = agg(0, vec![]);
        }
        match v {
            Val::Agg(_, f) | Val::List(f) => {
                let f = Rc::make_mut(f);
                while f.len() <= *i as usize {
                    f.push(Val::Un);
                }
                v = &mut f[*i as usize];
            }
            _ => unreachable!(),
        }
    }
    v
}
pub fn val_ids(v: &Val, f: &mut dyn FnMut(Id, bool)) {
    match v {
        Val::Agg(_, x) | Val::List(x) | Val::ListIter(x) => x.iter().for_each(|v| val_ids(v, f)),
        Val::Ref(p) | Val::SIter(p, _, _) => match &p.b {
            Base::Obj(i) => f(*i, false),
            Base::K(v) => val_ids(v, f),
        },
        Val::G(g) if g.id != 0 => f(g.id, g.t & OWN != 0),
        _ => (),
    }
}
pub fn val_has_ids(v: &Val) -> bool {
    match v {
        Val::Agg(_, x) | Val::List(x) | Val::ListIter(x) => x.iter().any(val_has_ids),
        Val::Ref(_) | Val::SIter(..) => true,
        Val::G(g) => g.id != 0,
        _ => false,
    }
}
pub fn val_rename(v: &Val, m: &dyn Fn(Id) -> Option<Id>) -> Val {
    if !val_has_ids(v) {
        return v.clone();
    }
    let rp = |p: &Ptr| Ptr {
        b: match &p.b {
            Base::Obj(i) => Base::Obj(m(*i).unwrap_or(1)),
            Base::K(v) => Base::K(Rc::new(val_rename(v, m))),
        },
        p: p.p.clone(),
    };
    match v {
        Val::Agg(n, x) => Val::Agg(*n, Rc::new(x.iter().map(|v| val_rename(v, m)).collect())),
        Val::List(x) => Val::List(Rc::new(x.iter().map(|v| val_rename(v, m)).collect())),
        Val::ListIter(x) => Val::ListIter(Rc::new(x.iter().map(|v| val_rename(v, m)).collect())),
        Val::Ref(p) => Val::Ref(rp(p)),
        Val::SIter(p, a, b) => Val::SIter(rp(p), *a, *b),
        Val::G(g) if g.id != 0 => Val::G(G { id: m(g.id).unwrap_or(1), ..*g }),
        v => v.clone(),
    }
}

/// ids reachable from the given values (in order of discovery), and the owned ones
pub fn reach<C: Client>(st: &State<C>, vals: &[&Val], ids: &[Id]) -> (Vec<Id>, HashSet<Id>) {
    let mut order = Vec::new();
    let mut seen = HashSet::new();
    let mut owned = HashSet::new();
    let mut queue: Vec<Id> = Vec::new();
    for i in ids.iter().rev() {
        queue.push(*i);
    }
    let mut first: Vec<Id> = Vec::new();
    for v in vals {
        val_ids(v, &mut |i, o| {
            if o {
                owned.insert(i);
            }
            first.push(i)
        });
    }
    first.reverse();
    queue.extend(first);
    while let Some(i) = queue.pop() {
        if !seen.insert(i) || !st.mem.contains_key(&i) {
            continue;
        }
        order.push(i);
        let mut next = Vec::new();
        match &st.mem[&i] {
            Obj::V(v) => val_ids(v, &mut |i, o| {
                if o {
                    owned.insert(i);
                }
                next.push(i)
            }),
            Obj::C(n) => n.ids(&mut |i| next.push(i)),
        }
        next.reverse();
        queue.extend(next);
    }
    (order, owned)
}

pub fn rename_obj<N: Node>(o: &Obj<N>, m: &dyn Fn(Id) -> Option<Id>) -> Obj<N> {
    match o {
        Obj::V(v) => Obj::V(val_rename(v, m)),
        Obj::C(n) => {
            let mut n = n.clone();
            n.rename(m);
            Obj::C(n)
        }
    }
}

fn memory() -> usize {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0) * 4096
}

impl<'a, C: Client> Eng<'a, C> {
    pub fn new(ir: &'a Ir, c: C) -> Self {
        Eng {
            cap: i128::MAX,
            ir,
            c,
            sums: Vec::new(),
            index: HashMap::new(),
            work: Vec::new(),
            undecided: BTreeMap::new(),
            steps: 0,
            max_steps: 200_000_000,
            roots: HashSet::new(),
            calls: HashSet::new(),
            blocks_seen: HashSet::new(),
            tainted: 0,
            cut: BTreeMap::new(),
            live: HashMap::new(),
            nodes: Vec::new(),
            edges: HashMap::new(),
            debug: std::env::var("ENGINE_DEBUG").is_ok(),
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(std::env::var("ENGINE_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(200)),
        }
    }
    pub fn find_fn(&self, suffix: &str) -> Option<usize> {
        self.ir.fns.iter().position(|f| f.full == suffix || f.path == suffix)
    }
    pub fn undecide(&mut self, s: String) {
        *self.undecided.entry(s).or_insert(0) += 1;
    }
    fn site(&self, it: &Item<C>, span: &str) -> Site {
        let f = self.sums[it.sum].f;
        // what happens in the standard library is reported at the call that leads there
        let (mut s, mut at, mut guard) = (it.sum, span.to_string(), 0);
        while self.ir.fns[self.sums[s].f].krate != "mofmt" && guard < 50 {
            match &self.sums[s].caller {
                Some((c, sp)) => {
                    s = *c;
                    at = sp.to_string();
                    guard += 1;
                }
                None => break,
            }
        }
        Site { f, sum: it.sum, func: self.ir.fns[self.sums[s].f].path.clone(), span: at, tr: it.tr.clone() }
    }
    /// chain of callers that created the summary
    pub fn callers(&self, sum: usize) -> Vec<String> {
        let mut v = Vec::new();
        let mut s = sum;
        let mut guard = 0;
        while let Some((c, span)) = &self.sums[s].caller {
            v.push(format!("{} ({})", self.ir.fns[self.sums[*c].f].path, span));
            s = *c;
            guard += 1;
            if guard > 30 {
                break;
            }
        }
        v
    }
    pub fn run(&mut self, roots: Vec<(usize, State<C>)>) {
        let (mut items, limit) = (0usize, std::env::var("ENGINE_MEM").ok().and_then(|v| v.parse().ok()).unwrap_or(18_000_000_000usize));
        for (f, mut st) in roots {
            // root arguments are in locals 1..
            let s = {
                self.canon_entry(&mut st);
                self.summary(f, st, None, None)
            };
            self.roots.insert(s);
            while let Some(it) = self.work.pop() {
                self.exec(it);
                items += 1;
                if items % 512 == 0 && memory() > limit {
                    self.steps = self.max_steps;
                }
                if self.steps >= self.max_steps || self.nodes.len() > 6_000_000 || std::time::Instant::now() > self.deadline {
                    self.undecide("analysis budget exhausted".into());
                    self.work.clear();
                    return;
                }
            }
        }
    }
    fn canon_entry(&mut self, st: &mut State<C>) {
        let site = Site { f: 0, sum: 0, func: "entry".into(), span: String::new(), tr: None };
        self.canon(st, &site, None);
    }
    fn summary(&mut self, f: usize, st: State<C>, caller: Option<(usize, Rc<str>)>, tr: Option<Rc<Trace>>) -> usize {
        if let Some(s) = self.index.get(&(f, st.clone())) {
            return *s;
        }
        let s = self.sums.len();
        self.index.insert((f, st.clone()), s);
        let from = self.nodes.len() as u32;
        self.nodes.push((s, usize::MAX));
        self.sums.push(Sum {
            f,
            exits: vec![],
            exit_set: HashSet::new(),
            conts: vec![],
            cont_set: HashSet::new(),
            seen: HashMap::new(),
            entry: st.clone(),
            entry_node: from,
            caller,
        });
        self.work.push(Item { sum: s, b: 0, st, tr, from });
        s
    }
    fn edge(&mut self, a: u32, b: u32, p: bool) {
        let e = self.edges.entry((a, b)).or_insert(true);
        *e &= p;
    }
    pub fn profile(&self) {
        let mut m: BTreeMap<usize, (usize, usize, usize)> = BTreeMap::new();
        for s in &self.sums {
            let e = m.entry(s.f).or_default();
            e.0 += 1;
            e.1 += s.seen.len();
            e.2 += s.exits.len();
        }
        let mut v: Vec<_> = m.into_iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1 .0 + x.1 .1));
        for (f, x) in v.iter().take(25) {
            eprintln!("{:?} {}", x, self.ir.fns[*f].path);
        }
    }
    pub fn show_entries(&self, name: &str, n: usize) {
        for s in self.sums.iter().filter(|s| self.ir.fns[s.f].path.ends_with(name)).take(n) {
            eprintln!("ENTRY {:?} {:?}", s.entry.mem, s.entry.g);
            for x in &s.exits {
                eprintln!("   EXIT {:?} {:?}", x.mem, x.g);
            }
        }
    }
    /// control points on a cycle without progress: (function, block)
    pub fn stalls(&self) -> Vec<(usize, usize)> {
        let n = self.nodes.len();
        let mut out: Vec<Vec<u32>> = vec![vec![]; n];
        let mut inn = vec![0usize; n];
        for ((a, b), p) in &self.edges {
            if !*p {
                out[*a as usize].push(*b);
                inn[*b as usize] += 1;
            }
        }
        // remove what has no predecessor, again and again; then what has no successor
        let mut alive = vec![true; n];
        let mut q: Vec<usize> = (0..n).filter(|i| inn[*i] == 0).collect();
        while let Some(i) = q.pop() {
            alive[i] = false;
            for j in &out[i] {
                inn[*j as usize] -= 1;
                if inn[*j as usize] == 0 {
                    q.push(*j as usize);
                }
            }
        }
        let mut rev: Vec<Vec<usize>> = vec![vec![]; n];
        let mut outn = vec![0usize; n];
        for i in 0..n {
            if alive[i] {
                for j in &out[i] {
                    if alive[*j as usize] {
                        rev[*j as usize].push(i);
                        outn[i] += 1;
                    }
                }
            }
        }
        let mut q: Vec<usize> = (0..n).filter(|i| alive[*i] && outn[*i] == 0).collect();
        while let Some(i) = q.pop() {
            alive[i] = false;
            for j in &rev[i] {
                outn[*j] -= 1;
                if outn[*j] == 0 && alive[*j] {
                    q.push(*j);
                }
            }
        }
        if self.debug {
            // one such cycle
            if let Some(s0) = (0..n).find(|i| alive[*i]) {
                let mut at: HashMap<usize, usize> = HashMap::new();
                let mut path = vec![];
                let mut i = s0;
                while !at.contains_key(&i) {
                    at.insert(i, path.len());
                    path.push(i);
                    match out[i].iter().find(|j| alive[**j as usize]) {
                        Some(j) => i = *j as usize,
                        None => break,
                    }
                }
                for i in &path[at.get(&i).cloned().unwrap_or(0)..] {
                    let (s, b) = self.nodes[*i];
                    eprintln!("CYCLE {} {} {:?}", self.ir.fns[self.sums[s].f].path, b, self.sums[s].entry);
                }
            }
        }
        let mut v: Vec<(usize, usize)> = (0..n).filter(|i| alive[*i]).map(|i| (self.sums[self.nodes[i].0].f, self.nodes[i].1)).collect();
        v.sort();
        v.dedup();
        v
    }
    /// remove what is unreachable and renumber; dead locals are removed first
    fn canon(&mut self, st: &mut State<C>, site: &Site, dead: Option<&HashSet<usize>>) {
        if let Some(live) = dead {
            let rm: Vec<Id> = st.mem.keys().cloned().filter(|i| *i < ENTRY0 && !live.contains(&(*i as usize))).collect();
            for i in rm {
                st.mem.remove(&i);
            }
        }
        let mut ids: Vec<Id> = st.mem.keys().cloned().filter(|i| *i < NEW0).collect();
        let mut seen: HashSet<Id> = ids.iter().cloned().collect();
        st.g.roots(&mut |i| {
            if seen.insert(i) {
                ids.push(i)
            }
        });
        let (order, owned) = reach(st, &[], &ids);
        let reachset: HashSet<Id> = order.iter().cloned().collect();
        self.c.gc(st, &owned, &reachset, site);
        let mut map: HashMap<Id, Id> = HashMap::new();
        let mut n = NEW0;
        let mut same = true;
        for i in &order {
            if *i >= NEW0 {
                if *i != n {
                    same = false;
                }
                map.insert(*i, n);
                n += 1;
            } else {
                map.insert(*i, *i);
            }
        }
        if same && n == st.next && order.len() == st.mem.len() {
            return;
        }
        let m = |i: Id| map.get(&i).cloned();
        let mem = std::mem::take(&mut st.mem);
        for (i, o) in mem {
            if let Some(j) = map.get(&i) {
                st.mem.insert(*j, if same { o } else { rename_obj(&o, &m) });
            }
        }
        st.g.rename(&m);
        st.next = n;
    }
    fn liveness(&mut self, f: usize) -> Rc<Vec<HashSet<usize>>> {
        if let Some(l) = self.live.get(&f) {
            return l.clone();
        }
        let func = &self.ir.fns[f];
        let n = func.blocks.len();
        let mut always: HashSet<usize> = HashSet::new();
        fn use_place(p: &Place, s: &mut HashSet<usize>) {
            s.insert(p.l);
            for e in &p.p {
                if let Proj::Index(i) = e {
                    s.insert(*i);
                }
            }
        }
        fn use_op(o: &Op, s: &mut HashSet<usize>) {
            match o {
                Op::Copy(p) | Op::Move(p) => use_place(p, s),
                _ => (),
            }
        }
        for b in &func.blocks {
            for s in &b.s {
                if let St::Assign(_, Rv::Ref(p, _), _) = s {
                    if !p.p.iter().any(|e| matches!(e, Proj::Deref)) {
                        always.insert(p.l);
                    }
                }
            }
        }
        let mut live: Vec<HashSet<usize>> = vec![HashSet::new(); n];
        let mut changed = true;
        while changed {
            changed = false;
            for b in (0..n).rev() {
                let blk = &func.blocks[b];
                if blk.cleanup {
                    continue;
                }
                let mut s: HashSet<usize> = HashSet::new();
                for t in blk.t.succ() {
                    s.extend(live[t].iter());
                }
                match &blk.t {
                    Term::Switch(o, ..) | Term::Assert(o, ..) => use_op(o, &mut s),
                    Term::Drop(p, ..) => use_place(p, &mut s),
                    Term::Call(_, args, d, _, _, fv) => {
                        if d.p.is_empty() {
                            s.remove(&d.l);
                        } else {
                            use_place(d, &mut s);
                        }
                        args.iter().for_each(|o| use_op(o, &mut s));
                        s.extend(fv.iter());
                    }
                    Term::Ret => {
                        s.insert(0);
                    }
                    _ => (),
                }
                for st in blk.s.iter().rev() {
                    match st {
                        St::Assign(p, rv, _) => {
                            if p.p.is_empty() {
                                s.remove(&p.l);
                            } else {
                                use_place(p, &mut s);
                            }
                            match rv {
                                Rv::Use(o) | Rv::Rep(o, _) | Rv::Cast(_, o, _, _) | Rv::Un(_, o) => use_op(o, &mut s),
                                Rv::Ref(p, _) | Rv::Disc(p) => use_place(p, &mut s),
                                Rv::Bin(_, a, b) => {
                                    use_op(a, &mut s);
                                    use_op(b, &mut s);
                                }
                                Rv::Agg(_, _, _, v) => v.iter().for_each(|o| use_op(o, &mut s)),
                                Rv::Unk => (),
                            }
                        }
                        St::SetDisc(p, _) => use_place(p, &mut s),
                        _ => (),
                    }
                }
                if s != live[b] {
                    live[b] = s;
                    changed = true;
                }
            }
        }
        for l in live.iter_mut() {
            l.extend(always.iter());
        }
        let l = Rc::new(live);
        self.live.insert(f, l.clone());
        l
    }

    fn resolve(&mut self, st: &State<C>, p: &Place) -> Loc {
        let mut loc = Loc::Obj(p.l as Id, vec![]);
        for e in &p.p {
            loc = match e {
                Proj::Deref => {
                    let v = self.read_loc(st, &loc);
                    match v {
                        Val::Ref(p) => match p.b {
                            Base::Obj(i) => Loc::Obj(i, p.p),
                            Base::K(v) => Loc::K(dig(&v, &p.p)),
                        },
                        Val::G(g) => match self.c.deref(&g, st) {
                            Some(p) => match p.b {
                                Base::Obj(i) => Loc::Obj(i, p.p),
                                Base::K(v) => Loc::K(dig(&v, &p.p)),
                            },
                            None => Loc::S(v),
                        },
                        v => Loc::S(v),
                    }
                }
                Proj::Field(i, _) => self.sub(st, loc, *i),
                Proj::Index(l) => match st.read_at(*l as Id, &[]) {
                    Val::Int(i) => self.sub(st, loc, i as u32),
                    _ => Loc::S(Val::Top),
                },
                Proj::Const(i, from_end) => {
                    let i = if *from_end {
                        match self.read_loc(st, &loc) {
                            Val::List(v) => v.len() as i64 - i,
                            _ => *i,
                        }
                    } else {
                        *i
                    };
                    self.sub(st, loc, i as u32)
                }
                Proj::Sub(from, to, end) => match self.read_loc(st, &loc) {
                    Val::List(v) => {
                        let (a, z) = (*from as usize, if *end { v.len() - *to as usize } else { *to as usize });
                        Loc::S(Val::List(Rc::new(v.get(a..z).map(|x| x.to_vec()).unwrap_or_default())))
                    }
                    Val::G(g) if *end && *to == 0 => Loc::S(self.c.rest(&g, *from, st).unwrap_or(Val::Top)),
                    _ => Loc::S(Val::Top),
                },
                Proj::Down(_) => loc,
            }
        }
        loc
    }
    fn sub(&mut self, st: &State<C>, loc: Loc, i: u32) -> Loc {
        match loc {
            Loc::Obj(id, mut p) => {
                if let Val::G(g) = st.read_at(id, &p) {
                    return match self.c.field(&g, i, st) {
                        Some(v) => Loc::K(v),
                        None => Loc::S(Val::Top),
                    };
                }
                p.push(i);
                Loc::Obj(id, p)
            }
            Loc::K(Val::G(g)) | Loc::S(Val::G(g)) => match self.c.field(&g, i, st) {
                Some(v) => Loc::K(v),
                None => Loc::S(Val::Top),
            },
            Loc::K(v) => Loc::K(dig(&v, &[i])),
            Loc::S(v) => Loc::S(dig(&v, &[i])),
        }
    }
    fn read_loc(&mut self, st: &State<C>, l: &Loc) -> Val {
        let v = match l {
            Loc::Obj(i, p) => st.read_at(*i, p),
            Loc::K(v) | Loc::S(v) => v.clone(),
        };
        if let Val::G(g) = &v {
            if let Some(n) = self.c.norm(g, st) {
                return n;
            }
        }
        v
    }
    fn write(&mut self, st: &mut State<C>, p: &Place, v: Val) {
        match self.resolve(st, p) {
            Loc::Obj(i, path) => {
                if path.is_empty() {
                    st.mem.insert(i, Obj::V(v));
                } else {
                    st.write_at(i, &path, v)
                }
            }
            Loc::S(_) => st.taint = true,
            Loc::K(_) => st.taint = true,
        }
    }
    pub fn konst(&self, k: &K) -> Val {
        match k {
            K::Int(i, _) => Val::Int(*i),
            K::Str(s) => Val::Str(s.clone()),
            K::Ref(k) => refk(self.konst(k)),
            K::Arr(v) => Val::List(Rc::new(v.iter().map(|k| self.konst(k)).collect())),
            K::Adt(var, f, t) => {
                if self.ir.is_cenum(*t) {
                    Val::Int(self.ir.types[*t].v[*var as usize].d)
                } else {
                    agg(*var, f.iter().map(|k| self.konst(k)).collect())
                }
            }
            K::Zst(t) => {
                let ty = &self.ir.types[*t];
                if ty.k == "fndef" {
                    Val::Fn(*t)
                } else if self.ir.is_cenum(*t) {
                    Val::Int(ty.v[0].d)
                } else {
                    unit()
                }
            }
            K::Unk => Val::Top,
        }
    }
    fn op(&mut self, st: &mut State<C>, o: &Op) -> Val {
        match o {
            Op::K(k) => self.konst(k),
            Op::Copy(p) => {
                let l = self.resolve(st, p);
                self.read_loc(st, &l)
            }
            Op::Move(p) => {
                let l = self.resolve(st, p);
                let v = self.read_loc(st, &l);
                if let Loc::Obj(i, path) = l {
                    if path.is_empty() {
                        st.mem.remove(&i);
                        if i >= ENTRY0 {
                            st.mem.insert(i, Obj::V(Val::Un));
                        }
                    } else if val_has_ids(&v) || !matches!(v, Val::Int(_)) {
                        st.write_at(i, &path, Val::Un);
                    }
                }
                v
            }
        }
    }
    pub fn place_ty(&self, f: usize, p: &Place) -> usize {
        let mut t = self.ir.fns[f].locals[p.l];
        for e in &p.p {
            t = match e {
                Proj::Deref | Proj::Index(_) | Proj::Const(..) => self.ir.types[t].e.unwrap_or(t),
                Proj::Field(_, ty) => *ty,
                _ => t,
            };
        }
        t
    }
    fn stored(&mut self, f: usize, p: &Place, v: Val, st: &State<C>) -> Val {
        if let Some(Proj::Field(i, _)) = p.p.last() {
            let t = self.place_ty(f, &Place { l: p.l, p: p.p[..p.p.len() - 1].to_vec() });
            if let Some(n) = self.c.store(self.ir, t, *i as u32, &v, st) {
                return n;
            }
        }
        v
    }
    fn disc(&self, ty: usize, v: &Val) -> Val {
        match v {
            Val::Agg(var, _) => {
                let t = &self.ir.types[ty];
                match t.v.get(*var as usize) {
                    Some(x) => Val::Int(x.d),
                    None => Val::Int(*var as i128),
                }
            }
            Val::Un => Val::Top,
            v => v.clone(),
        }
    }

    fn rvalue(&mut self, mut st: State<C>, f: usize, rv: &Rv, site: &Site) -> Outs<C> {
        let v = match rv {
            Rv::Use(o) => self.op(&mut st, o),
            Rv::Rep(o, n) => {
                let v = self.op(&mut st, o);
                if *n >= 0 && *n < 64 { Val::List(Rc::new(vec![v; *n as usize])) } else { Val::Top }
            }
            Rv::Ref(p, _) => match self.resolve(&st, p) {
                Loc::Obj(i, path) => Val::Ref(Ptr { b: Base::Obj(i), p: path }),
                Loc::K(v) => refk(v),
                Loc::S(v) => v,
            },
            Rv::Cast(k, o, _, _) => {
                let v = self.op(&mut st, o);
                let _ = k;
                v
            }
            Rv::Bin(op, a, b2) => {
                let a = self.op(&mut st, a);
                let b2 = self.op(&mut st, b2);
                return self.bin(st, op, &a, &b2, site);
            }
            Rv::Un(op, o) => {
                let v = self.op(&mut st, o);
                match (op.as_str(), &v) {
                    ("Not", Val::Int(i)) => b(*i == 0),
                    ("PtrMetadata", Val::Ref(p)) => match st.read_ptr(p) {
                        Val::List(l) => Val::Int(l.len() as i128),
                        Val::G(g) => self.c.meta(&g, &st).unwrap_or(Val::Top),
                        _ => Val::Top,
                    },
                    ("PtrMetadata", Val::G(g)) => self.c.meta(g, &st).unwrap_or(Val::Top),
                    ("PtrMetadata", Val::Str(s)) => Val::Int(s.len() as i128),
                    ("Not", Val::G(_)) => return self.c.bin(self.ir, "Not", &v, &Val::Int(0), st, false, site),
                    (_, Val::Any) => Val::Any,
                    _ => Val::Top,
                }
            }
            Rv::Disc(p) => {
                let l = self.resolve(&st, p);
                let v = self.read_loc(&st, &l);
                let ty = self.place_ty(f, p);
                self.disc(ty, &v)
            }
            Rv::Agg(k, ty, var, ops) => {
                let vals: Vec<Val> = ops.iter().map(|o| self.op(&mut st, o)).collect();
                match k.as_str() {
                    "array" => Val::List(Rc::new(vals)),
                    "adt" if self.c.agg(self.ir, *ty, *var, &vals, &st).is_some() => self.c.agg(self.ir, *ty, *var, &vals, &st).unwrap(),
                    "adt" if self.ir.is_cenum(*ty) => Val::Int(self.ir.types[*ty].v[*var as usize].d),
                    "adt" if self.ir.types[*ty].k == "adt" && self.ir.types[*ty].path.starts_with("std::mem::MaybeUninit") => vals.into_iter().next().unwrap_or(Val::Un),
                    "adt" | "tuple" | "closure" => agg(*var, vals),
                    _ => Val::Top,
                }
            }
            Rv::Unk => Val::Top,
        };
        vec![(st, v)]
    }
    fn bin(&mut self, st: State<C>, op: &str, x: &Val, y: &Val, site: &Site) -> Outs<C> {
        let ovf = op.ends_with("WithOverflow");
        if let (Val::Int(a), Val::Int(c)) = (x, y) {
            let base = op.trim_end_matches("WithOverflow").trim_end_matches("Unchecked");
            let (r, o) = match base {
                "Add" => (a + c, a + c > u64::MAX as i128),
                "Sub" => (a - c, a - c < 0),
                "Mul" => (a.wrapping_mul(*c), false),
                "Div" if *c != 0 => (a / c, false),
                "Rem" if *c != 0 => (a % c, false),
                "BitAnd" => (a & c, false),
                "BitOr" => (a | c, false),
                "BitXor" => (a ^ c, false),
                "Shl" => (a << (c & 63), false),
                "Shr" => (a >> (c & 63), false),
                "Eq" => ((a == c) as i128, false),
                "Ne" => ((a != c) as i128, false),
                "Lt" => ((a < c) as i128, false),
                "Le" => ((a <= c) as i128, false),
                "Gt" => ((a > c) as i128, false),
                "Ge" => ((a >= c) as i128, false),
                "Cmp" => ((a > c) as i128 - (a < c) as i128, false),
                _ => return vec![(st, Val::Top)],
            };
            let rv = if base == "Add" && r > self.cap { g(GE, 0, self.cap as i32, 0) } else { Val::Int(r) };
            let v = if ovf { agg(0, vec![rv, b(o)]) } else { rv };
            return vec![(st, v)];
        }
        // "at least n": adding keeps it, comparisons with less are decided
        let ge = |v: &Val| match v {
            Val::G(G { t: GE, x, .. }) => Some(*x as i128),
            _ => None,
        };
        if ge(x).is_some() || ge(y).is_some() {
            let base = op.trim_end_matches("WithOverflow").trim_end_matches("Unchecked");
            let r = match (base, x, y) {
                ("Add", _, Val::Int(_)) => x.clone(),
                ("Add", Val::Int(_), _) => y.clone(),
                ("Eq", _, Val::Int(k)) if ge(x).is_some_and(|m| *k < m) => Val::Int(0),
                ("Eq", Val::Int(k), _) if ge(y).is_some_and(|m| *k < m) => Val::Int(0),
                ("Ne", _, Val::Int(k)) if ge(x).is_some_and(|m| *k < m) => Val::Int(1),
                ("Gt", _, Val::Int(k)) if ge(x).is_some_and(|m| *k < m) => Val::Int(1),
                ("Ge", _, Val::Int(k)) if ge(x).is_some_and(|m| *k <= m) => Val::Int(1),
                ("Lt", _, Val::Int(k)) if ge(x).is_some_and(|m| *k <= m) => Val::Int(0),
                ("Le", _, Val::Int(k)) if ge(x).is_some_and(|m| *k < m) => Val::Int(0),
                ("Lt", Val::Int(k), _) if ge(y).is_some_and(|m| *k < m) => Val::Int(1),
                ("Le", Val::Int(k), _) if ge(y).is_some_and(|m| *k <= m) => Val::Int(1),
                ("Gt", Val::Int(k), _) if ge(y).is_some_and(|m| *k <= m) => Val::Int(0),
                _ => Val::Any,
            };
            let flag = if base == "Sub" { Val::Top } else { Val::Int(0) };
            return vec![(st, if ovf { agg(0, vec![r, flag]) } else { r })];
        }
        match (op, x, y) {
            ("BitAnd", Val::Int(0), _) | ("BitAnd", _, Val::Int(0)) => return vec![(st, Val::Int(0))],
            _ => (),
        }
        if matches!(x, Val::G(_)) || matches!(y, Val::G(_)) {
            return self.c.bin(self.ir, op, x, y, st, ovf, site);
        }
        let any = (matches!(x, Val::Any) || matches!(y, Val::Any)) && !matches!(x, Val::Top) && !matches!(y, Val::Top);
        let v = if any { Val::Any } else { Val::Top };
        let v = if ovf {
            let flag = if op.starts_with("Sub") { Val::Top } else { Val::Int(0) };
            agg(0, vec![v, flag])
        } else {
            v
        };
        vec![(st, v)]
    }

    fn exec(&mut self, it: Item<C>) {
        let Item { sum, mut b, mut st, mut tr, mut from } = it;
        let f = self.sums[sum].f;
        let ir = self.ir;
        let func = &ir.fns[f];
        loop {
            self.steps += 1;
            if st.taint {
                *self.cut.entry(func.path.clone()).or_insert(0) += 1;
                return;
            }
            if self.steps % 2_000_000 == 0 && self.debug {
                eprintln!("steps {} sums {} work {} in {}", self.steps, self.sums.len(), self.work.len(), func.path);
            }
            let blk = &func.blocks[b];
            self.blocks_seen.insert((f, b));
            if func.join[b] {
                let live = self.liveness(f);
                let it = Item { sum, b, st: State::new(), tr: tr.clone(), from };
                let site = self.site(&it, &func.span);
                self.canon(&mut st, &site, Some(&live[b]));
                self.c.widen(ir, f, b, &mut st);
                let p = st.g.progress();
                st.g.set_progress(false);
                if p {
                    st.g.set_total(true);
                }
                let n = self.nodes.len() as u32;
                let mut new = false;
                let to = *self.sums[sum].seen.entry((b, st.clone())).or_insert_with(|| {
                    new = true;
                    n
                });
                self.edge(from, to, p || st.taint);
                if !new {
                    return;
                }
                self.nodes.push((sum, b));
                from = to;
            }
            self.c.block(ir, f, b, &mut st);
            let it0 = Item { sum, b, st: State::new(), tr: tr.clone(), from };
            // statements
            let mut i = 0;
            while i < blk.s.len() {
                match &blk.s[i] {
                    St::Assign(p, rv, span) => {
                        let simple = matches!(rv, Rv::Bin(..) | Rv::Un(..));
                        if simple {
                            let site = self.site(&it0, span);
                            let mut outs = self.rvalue(st, f, rv, &site);
                            if outs.is_empty() {
                                return;
                            }
                            let (s, v) = outs.pop().unwrap();
                            for (s2, v2) in outs {
                                self.fork_mid(sum, b, i + 1, s2, p, v2, &tr, f, from);
                            }
                            st = s;
                            let v = self.stored(f, p, v, &st);
                            self.write(&mut st, p, v);
                        } else {
                            let site = Site { f, sum, func: String::new(), span: String::new(), tr: None };
                            let (mut s, v) = self.rvalue(st, f, rv, &site).pop().unwrap();
                            let v = self.stored(f, p, v, &s);
                            self.write(&mut s, p, v);
                            st = s;
                        }
                    }
                    St::SetDisc(p, var) => {
                        if let Loc::Obj(i, path) = self.resolve(&st, p) {
                            if let Val::Agg(_, f) = st.read_at(i, &path) {
                                st.write_at(i, &path, Val::Agg(*var, f));
                            }
                        }
                    }
                    St::Dead(l) => {
                        st.mem.remove(&(*l as Id));
                    }
                    _ => (),
                }
                i += 1;
            }
            match self.terminator(sum, f, b, st, &mut tr, &blk.t, from) {
                Some((nb, ns)) => {
                    b = nb;
                    st = ns;
                }
                None => return,
            }
        }
    }
    /// continue a forked state in the middle of a block
    fn fork_mid(&mut self, sum: usize, b: usize, start: usize, st: State<C>, p: &Place, v: Val, tr: &Option<Rc<Trace>>, f: usize, from: u32) {
        let mut st = st;
        self.write(&mut st, p, v);
        let ir = self.ir;
        let blk = &ir.fns[f].blocks[b];
        let it0 = Item { sum, b, st: State::new(), tr: tr.clone(), from };
        for i in start..blk.s.len() {
            match &blk.s[i] {
                St::Assign(p, rv, span) => {
                    let site = self.site(&it0, span);
                    let mut outs = self.rvalue(st, f, rv, &site);
                    if outs.is_empty() {
                        return;
                    }
                    let (mut s, v) = outs.pop().unwrap();
                    for (s2, v2) in outs {
                        self.fork_mid(sum, b, i + 1, s2, p, v2, tr, f, from);
                    }
                    let v = self.stored(f, p, v, &s);
                    self.write(&mut s, p, v);
                    st = s;
                }
                St::SetDisc(p, var) => {
                    if let Loc::Obj(i, path) = self.resolve(&st, p) {
                        if let Val::Agg(_, f) = st.read_at(i, &path) {
                            st.write_at(i, &path, Val::Agg(*var, f));
                        }
                    }
                }
                St::Dead(l) => {
                    st.mem.remove(&(*l as Id));
                }
                _ => (),
            }
        }
        let mut tr2 = tr.clone();
        if let Some((nb, ns)) = self.terminator(sum, f, b, st, &mut tr2, &blk.t, from) {
            self.work.push(Item { sum, b: nb, st: ns, tr: tr2, from });
        }
    }
    fn terminator(&mut self, sum: usize, f: usize, b: usize, mut st: State<C>, tr: &mut Option<Rc<Trace>>, t: &Term, from: u32) -> Option<(usize, State<C>)> {
        let it0 = Item { sum, b, st: State::new(), tr: tr.clone(), from };
        match t {
            Term::Goto(n) => Some((*n, st)),
            Term::Drop(p, n, _) => {
                if let Loc::Obj(i, path) = self.resolve(&st, p) {
                    if path.is_empty() {
                        st.mem.insert(i, Obj::V(Val::Un));
                    } else {
                        st.write_at(i, &path, Val::Un);
                    }
                }
                Some((*n, st))
            }
            Term::Switch(o, ts, other, span, _) => {
                let v = self.op(&mut st, o);
                let push = |tr: &Option<Rc<Trace>>, k: &str| Some(Rc::new(Trace { s: Rc::from(format!("{span}: {k}")), up: tr.clone() }));
                match v {
                    Val::Int(i) => {
                        let n = ts.iter().find(|t| t.0 == i).map(|t| t.1).unwrap_or(*other);
                        Some((n, st))
                    }
                    v => {
                        let keys: Vec<i128> = ts.iter().map(|t| t.0).collect();
                        let outs = match &v {
                            Val::G(g) => self.c.switch(self.ir, g, &keys, &st),
                            _ => None,
                        };
                        let outs = outs.unwrap_or_else(|| {
                            let mut s = st.clone();
                            if !matches!(v, Val::Any) {
                                if !s.taint {
                                    self.tainted += 1;
                                    if self.debug {
                                        eprintln!("taint at {} {} value {:?}", self.ir.fns[f].path, span, v);
                                    }
                                }
                                s.taint = true;
                            }
                            (0..=ts.len()).map(|i| (s.clone(), i)).collect()
                        });
                        let mut first = None;
                        for (s, i) in outs {
                            let n = if i < ts.len() { ts[i].1 } else { *other };
                            let t = push(tr, &if i < ts.len() { format!("case {}", keys[i]) } else { "otherwise".into() });
                            if first.is_none() {
                                first = Some((n, s, t));
                            } else {
                                self.work.push(Item { sum, b: n, st: s, tr: t, from });
                            }
                        }
                        first.map(|(n, s, t)| {
                            *tr = t;
                            (n, s)
                        })
                    }
                }
            }
            Term::Assert(o, want, msg, n, span) => {
                let v = self.op(&mut st, o);
                let site = self.site(&it0, span);
                match v {
                    Val::Int(i) => {
                        if (i != 0) == *want {
                            Some((*n, st))
                        } else {
                            if !st.taint {
                                self.c.panic(self.ir, &format!("assertion: {msg}"), &st, &site);
                            }
                            None
                        }
                    }
                    Val::Any => {
                        if !st.taint {
                            self.c.panic(self.ir, &format!("assertion: {msg}"), &st, &site);
                        }
                        Some((*n, st))
                    }
                    _ => Some((*n, st)),
                }
            }
            Term::Ret => {
                self.ret(sum, st, &it0);
                None
            }
            Term::Call(c, args, dest, target, span, _) => {
                let vals: Vec<Val> = args.iter().map(|o| self.op(&mut st, o)).collect();
                let site = self.site(&it0, span);
                self.call(sum, c, vals, st, dest, *target, span, tr, site, from)
            }
            Term::Unreachable | Term::Resume => None,
            Term::Unk => {
                self.undecide(format!("unknown terminator in {}", self.ir.fns[f].path));
                None
            }
        }
    }
    fn ret(&mut self, sum: usize, mut st: State<C>, it0: &Item<C>) {
        let f = self.sums[sum].f;
        let site = self.site(it0, &self.ir.fns[f].span.clone());
        let only: HashSet<usize> = [0].into_iter().collect();
        self.c.at_exit(self.ir, f, &mut st);
        self.canon(&mut st, &site, Some(&only));
        if !self.sums[sum].exit_set.insert(st.clone()) {
            return;
        }
        if self.roots.contains(&sum) || self.sums[sum].caller.is_none() {
            self.c.root_exit(self.ir, &st, &site);
        }
        self.sums[sum].exits.push(st.clone());
        for i in 0..self.sums[sum].conts.len() {
            self.resume(sum, i, &st);
        }
    }
    fn resume(&mut self, sum: usize, i: usize, exit: &State<C>) {
        let f = self.sums[sum].f;
        let c = &self.sums[sum].conts[i];
        let mut st = c.st.clone();
        // callee id -> caller id
        let mut back: HashMap<Id, Id> = c.map.iter().map(|(a, b)| (*b, *a)).collect();
        for k in exit.mem.keys() {
            if *k >= NEW0 {
                back.insert(*k, st.next);
                st.next += 1;
            }
        }
        let m = |i: Id| back.get(&i).cloned();
        for (k, o) in &exit.mem {
            if *k >= ENTRY0 {
                let mut o = rename_obj(o, &m);
                if let (Obj::C(n), Some(Obj::C(old))) = (&mut o, st.mem.get(&back[k])) {
                    n.returned(old);
                }
                st.mem.insert(back[k], o);
            }
        }
        let ret = match exit.mem.get(&0) {
            Some(Obj::V(v)) => val_rename(v, &m),
            _ => Val::Un,
        };
        let mut h = exit.g.clone();
        h.rename(&m);
        let shared: HashSet<Id> = back.values().cloned().collect();
        st.taint |= exit.taint;
        let (csum, target, dest, tr, span, from) = (c.sum, c.target, c.dest.clone(), c.tr.clone(), c.span.clone(), c.from);
        let prog = st.g.progress() || h.progress() || h.total();
        let total = st.g.total();
        let it = Item { sum: csum, b: target, st: State::new(), tr: tr.clone(), from };
        let site = self.site(&it, &span);
        self.c.leave(self.ir, f, &mut st, h, &shared, &site);
        st.g.set_progress(prog);
        st.g.set_total(total);
        self.write(&mut st, &dest, ret);
        let tr = Some(Rc::new(Trace { s: Rc::from(format!("{} -> {}", span, self.ir.fns[f].path.rsplit("::").next().unwrap_or(""))), up: tr }));
        for st in self.c.after_call(self.ir, f, st, &site) {
            self.work.push(Item { sum: csum, b: target, st, tr: tr.clone(), from });
        }
    }
    fn call(&mut self, sum: usize, c: &Rc<Callee>, vals: Vec<Val>, st: State<C>, dest: &Place, target: Option<usize>, span: &Rc<str>, tr: &mut Option<Rc<Trace>>, site: Site, from: u32) -> Option<(usize, State<C>)> {
        self.steps += 1;
        let r = self.c.builtin(self.ir, c, &vals, &st, &site);
        let r = match r {
            B::No => self.resolve_call(c, vals, st, &site, target.is_some()),
            r => r,
        };
        match r {
            B::Outs(outs) => {
                let target = target?;
                let mut first = None;
                let many = outs.len() > 1;
                for (k, (mut s, v)) in outs.into_iter().enumerate() {
                    self.write(&mut s, dest, v);
                    let t = if many {
                        let nm = c.path.rsplit("::").next().unwrap_or("").to_string();
                        Some(Rc::new(Trace { s: Rc::from(format!("{span}: {nm} #{k}")), up: tr.clone() }))
                    } else {
                        tr.clone()
                    };
                    if first.is_none() {
                        first = Some((target, s, t));
                    } else {
                        self.work.push(Item { sum, b: target, st: s, tr: t, from });
                    }
                }
                first.map(|(n, s, t)| {
                    *tr = t;
                    (n, s)
                })
            }
            B::Call(f, args, st) => {
                let target = match target {
                    Some(t) => t,
                    None => usize::MAX,
                };
                self.invoke(sum, f, args, st, dest, target, span, tr.clone(), site, from);
                None
            }
            B::Mix(outs, calls) => {
                for (f, args, st) in calls {
                    self.invoke(sum, f, args, st, dest, target.unwrap_or(usize::MAX), span, tr.clone(), site.clone(), from);
                }
                let target = target?;
                for (mut s, v) in outs {
                    self.write(&mut s, dest, v);
                    self.work.push(Item { sum, b: target, st: s, tr: tr.clone(), from });
                }
                None
            }
            B::Unknown(s) => {
                if self.debug {
                    eprintln!("undecided: {s} at {span}");
                }
                self.undecide(s);
                None
            }
            B::No => None,
        }
    }
    fn invoke(&mut self, sum: usize, f: usize, args: Vec<Val>, mut st: State<C>, dest: &Place, target: usize, span: &Rc<str>, tr: Option<Rc<Trace>>, site: Site, from: u32) {
        self.calls.insert((self.sums[sum].f, f));
        self.c.before_call(self.ir, f, &mut st);
        // clean up the caller first
        let refs: Vec<Id> = {
            let mut v = Vec::new();
            for a in &args {
                val_ids(a, &mut |i, _| v.push(i));
            }
            v
        };
        let _ = refs;
        let mut gr: Vec<Id> = Vec::new();
        st.g.roots(&mut |i| gr.push(i));
        let av: Vec<&Val> = args.iter().collect();
        let (order, owned) = reach(&st, &av, &gr);
        let mut map: HashMap<Id, Id> = HashMap::new();
        let mut n = ENTRY0;
        for i in &order {
            map.insert(*i, n);
            n += 1;
        }
        let m = |i: Id| map.get(&i).cloned();
        let mut cst: State<C> = State::new();
        for i in &order {
            cst.mem.insert(map[i], rename_obj(&st.mem[i], &m));
        }
        for (k, a) in args.iter().enumerate() {
            cst.mem.insert(k as Id + 1, Obj::V(val_rename(a, &m)));
        }
        cst.taint = st.taint;
        cst.g = self.c.enter(self.ir, f, &st, &map, &owned);
        let p = cst.g.progress() || cst.taint;
        cst.g.set_progress(false);
        cst.g.set_total(false);
        let s = self.summary(f, cst, Some((sum, span.clone())), None);
        let to = self.sums[s].entry_node;
        self.edge(from, to, p);
        if target == usize::MAX {
            return;
        }
        // values moved into the call are owned by the callee now: canonicalise the caller
        // with the arguments kept alive (their ids are needed to resume)
        if !self.sums[s].cont_set.insert((sum, target, { let mut k = st.clone(); k.mem.insert(9_999, Obj::V(agg(0, args.clone()))); k })) {
            return;
        }
        let _ = site;
        self.c.suspend(&mut st, &owned);
        self.sums[s].conts.push(Cont { sum, target, dest: dest.clone(), st, map, tr, span: span.clone(), from });
        let i = self.sums[s].conts.len() - 1;
        for e in 0..self.sums[s].exits.len() {
            let ex = self.sums[s].exits[e].clone();
            self.resume(s, i, &ex);
        }
    }
    fn resolve_call(&mut self, c: &Rc<Callee>, vals: Vec<Val>, mut st: State<C>, site: &Site, returns: bool) -> B<C> {
        // constructors used as functions
        if let Some((ty, var)) = c.ctor {
            return B::Outs(vec![(st, agg(var, if self.ir.is_cenum(ty) { vec![] } else { vals }))]);
        }
        let d = c.decl.as_str();
        if d.ends_with("FnOnce::call_once") || d.ends_with("FnMut::call_mut") || d.ends_with("Fn::call") {
            let t = c.dargs.first().cloned().unwrap_or(0);
            let mut tt = t;
            let mut selfv = vals[0].clone();
            while self.ir.types[tt].k == "ref" {
                tt = self.ir.types[tt].e.unwrap_or(0);
                selfv = st.load(&selfv);
            }
            let tuple: Vec<Val> = match vals.get(1) {
                Some(Val::Agg(_, f)) => f.to_vec(),
                _ => vec![],
            };
            let ty = &self.ir.types[tt];
            let fnty = match st.load_all(&selfv) {
                Val::Fn(t) => Some(t),
                _ if ty.k == "fndef" => Some(tt),
                _ => None,
            };
            if let Some(ft) = fnty {
                if let Some(cl) = self.ir.types[ft].callee.clone() {
                    let r = self.c.builtin(self.ir, &cl, &tuple, &st, site);
                    return match r {
                        B::No => self.resolve_call(&cl, tuple, st, site, returns),
                        r => r,
                    };
                }
            }
            if ty.k == "closure" {
                if let Some(body) = ty.body {
                    let by_ref = self.ir.types[self.ir.fns[body].locals[1]].k == "ref";
                    let me = match (&selfv, by_ref) {
                        (Val::Ref(_), true) => selfv,
                        (Val::Ref(_), false) => st.load_all(&selfv),
                        (v, true) => {
                            let v = v.clone();
                            st.alloc_v(v)
                        }
                        (v, false) => v.clone(),
                    };
                    let mut args = vec![me];
                    args.extend(tuple);
                    return B::Call(body, args, st);
                }
            }
            if c.f.is_none() {
                return B::Unknown(format!("call of an unknown function value in {}", site.func));
            }
        }
        match crate::stdlib::builtin(self, c, &vals, &st, site) {
            B::No => (),
            r => return r,
        }
        if let Some(f) = c.f {
            return B::Call(f, vals, st);
        }
        if !returns {
            if !st.taint {
                self.c.panic(self.ir, &format!("call of {}", c.path), &st, site);
            }
            return B::Outs(vec![]);
        }
        B::Unknown(format!("unmodelled function {} called by {}", c.full, site.func))
    }
    pub fn eq(&mut self, st: State<C>, x: &Val, y: &Val, site: &Site) -> Outs<C> {
        let x = st.load_all(x);
        let y = st.load_all(y);
        match (&x, &y) {
            (Val::Str(a), Val::Str(c)) => vec![(st, b(a == c))],
            _ => self.bin(st, "Eq", &x, &y, site),
        }
    }
}
