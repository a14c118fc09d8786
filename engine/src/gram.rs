//! The reference grammar: one position automaton (Glushkov) per syntax kind
use crate::ir::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Sym {
    T(u8),
    K(u8),
}
#[derive(Clone, Debug)]
pub struct Pos {
    pub sym: Sym,
    /// tokens the subtree may not begin with
    pub excl: u128,
}
#[derive(Clone, Debug, Default)]
pub struct Nfa {
    /// positions 1.. (0 is the start)
    pub pos: Vec<Option<Pos>>,
    pub follow: Vec<BTreeSet<usize>>,
    pub accept: Vec<bool>,
    /// token positions that behave alike are represented by the first of them
    pub rep: Vec<usize>,
    /// achievable numbers of children (bit 8: eight or more)
    pub lens: u16,
}
pub struct Gram {
    pub kinds: Vec<String>,
    pub toks: Vec<String>,
    pub kidx: HashMap<String, u8>,
    pub tidx: HashMap<String, u8>,
    pub nfa: BTreeMap<u8, Nfa>,
    pub first: BTreeMap<u8, u128>,
    pub last: BTreeMap<u8, u128>,
    /// kinds that can occur strictly inside
    pub inside: BTreeMap<u8, u128>,
}
enum Re {
    S(Sym, u128),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Opt(Box<Re>),
    Star(Box<Re>),
}
struct P<'a> {
    s: Vec<&'a str>,
    i: usize,
    g: &'a Gram,
}
fn lexre(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            ' ' => i += 1,
            '(' | ')' | '|' | '?' | '*' => {
                v.push(c[i].to_string());
                i += 1;
            }
            '<' => {
                let j = (i..c.len()).find(|j| c[*j] == '>').unwrap();
                v.push(c[i..=j].iter().collect());
                i = j + 1;
            }
            _ => {
                let mut j = i;
                while j < c.len() && (c[j].is_alphanumeric() || c[j] == '{') {
                    if c[j] == '{' {
                        while c[j] != '}' {
                            j += 1;
                        }
                    }
                    j += 1;
                }
                v.push(c[i..j].iter().collect());
                i = j.max(i + 1);
            }
        }
    }
    v
}
impl<'a> P<'a> {
    fn alt(&mut self) -> Re {
        let mut v = vec![self.cat()];
        while self.s.get(self.i) == Some(&"|") {
            self.i += 1;
            v.push(self.cat());
        }
        if v.len() == 1 { v.pop().unwrap() } else { Re::Alt(v) }
    }
    fn cat(&mut self) -> Re {
        let mut v = vec![];
        while let Some(t) = self.s.get(self.i) {
            if *t == "|" || *t == ")" {
                break;
            }
            let mut r = if *t == "(" {
                self.i += 1;
                let r = self.alt();
                assert_eq!(self.s[self.i], ")");
                self.i += 1;
                r
            } else {
                self.i += 1;
                self.sym(t)
            };
            while let Some(q) = self.s.get(self.i) {
                match *q {
                    "?" => r = Re::Opt(Box::new(r)),
                    "*" => r = Re::Star(Box::new(r)),
                    _ => break,
                }
                self.i += 1;
            }
            v.push(r);
        }
        Re::Cat(v)
    }
    fn sym(&self, t: &str) -> Re {
        if let Some(n) = t.strip_prefix('<') {
            let n = n.trim_end_matches('>');
            return Re::S(Sym::T(*self.g.tidx.get(n).unwrap_or_else(|| fail(&format!("token kind {n} does not exist")))), 0);
        }
        let (n, f) = t.split_once('{').unwrap_or((t, ""));
        let mut ex = 0u128;
        for x in f.trim_end_matches('}').split(',').filter(|x| !x.is_empty()) {
            ex |= 1 << self.g.tidx.get(x.trim_start_matches('!')).unwrap_or_else(|| fail(&format!("token kind {x} does not exist")));
        }
        Re::S(Sym::K(*self.g.kidx.get(n).unwrap_or_else(|| fail(&format!("syntax kind {n} does not exist")))), ex)
    }
}
fn fail(m: &str) -> ! {
    eprintln!("grammar: {m}");
    std::process::exit(3)
}
struct Gl {
    first: BTreeSet<usize>,
    last: BTreeSet<usize>,
    null: bool,
}
fn glush(r: &Re, n: &mut Nfa) -> Gl {
    match r {
        Re::S(s, e) => {
            n.pos.push(Some(Pos { sym: *s, excl: *e }));
            n.follow.push(BTreeSet::new());
            let p = n.pos.len() - 1;
            Gl { first: [p].into(), last: [p].into(), null: false }
        }
        Re::Cat(v) => {
            let mut acc = Gl { first: BTreeSet::new(), last: BTreeSet::new(), null: true };
            for r in v {
                let g = glush(r, n);
                for l in &acc.last {
                    n.follow[*l].extend(g.first.iter());
                }
                if acc.null {
                    acc.first.extend(g.first.iter());
                }
                if g.null {
                    acc.last.extend(g.last.iter());
                } else {
                    acc.last = g.last;
                }
                acc.null &= g.null;
            }
            acc
        }
        Re::Alt(v) => {
            let mut acc = Gl { first: BTreeSet::new(), last: BTreeSet::new(), null: false };
            for r in v {
                let g = glush(r, n);
                acc.first.extend(g.first);
                acc.last.extend(g.last);
                acc.null |= g.null;
            }
            acc
        }
        Re::Opt(r) => {
            let mut g = glush(r, n);
            g.null = true;
            g
        }
        Re::Star(r) => {
            let mut g = glush(r, n);
            for l in &g.last {
                n.follow[*l].extend(g.first.iter());
            }
            g.null = true;
            g
        }
    }
}
pub fn load(ir: &Ir, path: &str) -> Gram {
    let kt = ir.adt("SyntaxKind").unwrap_or_else(|| fail("no type SyntaxKind"));
    let tt = ir.adt("ModelicaToken").unwrap_or_else(|| fail("no type ModelicaToken"));
    let names = |t: usize| -> Vec<String> {
        let v = &ir.types[t].v;
        if v.len() > 127 || v.iter().enumerate().any(|(i, v)| v.d != i as i128) {
            fail("enumeration with unexpected discriminants");
        }
        v.iter().map(|v| v.name.clone()).collect()
    };
    let kinds = names(kt);
    let toks = names(tt);
    let mut g = Gram {
        kidx: kinds.iter().enumerate().map(|(i, s)| (s.clone(), i as u8)).collect(),
        tidx: toks.iter().enumerate().map(|(i, s)| (s.clone(), i as u8)).collect(),
        kinds,
        toks,
        nfa: BTreeMap::new(),
        first: BTreeMap::new(),
        last: BTreeMap::new(),
        inside: BTreeMap::new(),
    };
    let txt = std::fs::read_to_string(path).unwrap_or_else(|_| fail("cannot read the grammar"));
    let mut nfas = BTreeMap::new();
    for line in txt.lines() {
        if line.starts_with('#') || line.trim().is_empty() {
            continue;
        }
        let (k, r) = line.split_once(':').unwrap();
        let toks = lexre(r);
        let mut p = P { s: toks.iter().map(|s| s.as_str()).collect(), i: 0, g: &g };
        let re = p.alt();
        assert_eq!(p.i, p.s.len(), "grammar of {k}");
        let mut n = Nfa { pos: vec![None], follow: vec![BTreeSet::new()], accept: vec![], rep: vec![], lens: 0 };
        let gl = glush(&re, &mut n);
        n.follow[0] = gl.first.clone();
        n.accept = (0..n.pos.len()).map(|i| if i == 0 { gl.null } else { gl.last.contains(&i) }).collect();
        n.rep = (0..n.pos.len())
            .map(|i| match &n.pos[i] {
                Some(Pos { sym: Sym::T(_), .. }) => (1..=i)
                    .find(|j| {
                        matches!(n.pos[*j], Some(Pos { sym: Sym::T(_), .. }))
                            && n.follow[*j] == n.follow[i]
                            && n.accept[*j] == n.accept[i]
                            && (0..n.pos.len()).all(|q| n.follow[q].contains(j) == n.follow[q].contains(&i))
                    })
                    .unwrap(),
                _ => i,
            })
            .collect();
        // achievable lengths
        let mut cur: BTreeSet<usize> = [0].into();
        let mut lens = 0u16;
        for len in 0..40usize {
            if cur.iter().any(|p| *p != 0 && n.accept[*p]) {
                lens |= 1 << len.min(8);
            }
            cur = cur.iter().flat_map(|p| n.follow[*p].iter().cloned()).collect();
        }
        n.lens = lens;
        let ki = *g.kidx.get(k.trim()).unwrap_or_else(|| fail(&format!("syntax kind {k} does not exist")));
        nfas.insert(ki, n);
    }
    g.nfa = nfas;
    for (i, k) in g.kinds.iter().enumerate() {
        if k != "Error" && !g.nfa.contains_key(&(i as u8)) {
            fail(&format!("no production for syntax kind {k}"));
        }
    }
    // first, last, inside
    for k in g.nfa.keys() {
        g.first.insert(*k, 0);
        g.last.insert(*k, 0);
        g.inside.insert(*k, 0);
    }
    loop {
        let mut changed = false;
        for (k, n) in &g.nfa {
            let get = |m: &BTreeMap<u8, u128>, p: usize| match &n.pos[p] {
                Some(Pos { sym: Sym::T(t), .. }) => 1u128 << t,
                Some(Pos { sym: Sym::K(c), excl }) => m[c] & !excl,
                None => 0,
            };
            let f: u128 = n.follow[0].iter().map(|p| get(&g.first, *p)).fold(0, |a, b| a | b);
            let l: u128 = (1..n.pos.len())
                .filter(|p| n.accept[*p])
                .map(|p| match &n.pos[p] {
                    Some(Pos { sym: Sym::T(t), .. }) => 1u128 << t,
                    Some(Pos { sym: Sym::K(c), .. }) => g.last[c],
                    None => 0,
                })
                .fold(0, |a, b| a | b);
            let ins: u128 = n
                .pos
                .iter()
                .flatten()
                .map(|p| match p.sym {
                    Sym::K(c) => 1u128 << c | g.inside[&c],
                    _ => 0,
                })
                .fold(0, |a, b| a | b);
            for (m, v) in [(0, f), (1, l), (2, ins)] {
                let m = match m {
                    0 => &g.first,
                    1 => &g.last,
                    _ => &g.inside,
                };
                if m[k] != v {
                    changed = true;
                }
            }
            let k = *k;
            let upd = (f, l, ins);
            // stored below to satisfy the borrow checker
            PENDING.with(|p| p.borrow_mut().push((k, upd)));
        }
        PENDING.with(|p| {
            for (k, (f, l, i)) in p.borrow_mut().drain(..) {
                g.first.insert(k, f);
                g.last.insert(k, l);
                g.inside.insert(k, i);
            }
        });
        if !changed {
            break;
        }
    }
    g
}
thread_local! {
    static PENDING: std::cell::RefCell<Vec<(u8, (u128, u128, u128))>> = const { std::cell::RefCell::new(Vec::new()) };
}
impl Gram {
    pub fn t(&self, n: &str) -> u8 {
        *self.tidx.get(n).unwrap_or_else(|| fail(&format!("token kind {n} does not exist")))
    }
    pub fn k(&self, n: &str) -> u8 {
        *self.kidx.get(n).unwrap_or_else(|| fail(&format!("syntax kind {n} does not exist")))
    }
}
