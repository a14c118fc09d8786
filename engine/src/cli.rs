//! The program: which files it touches, what it writes, what it reports and how it exits.
//! Symbolic command line, directories and files; every path and file met owes its handling.
use crate::core::*;
use crate::ir::*;
use crate::report::Report;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

const ARG: u8 = 10; // the first argument as text
const ARGV: u8 = 11; // the argument list from position x on
const NARGS: u8 = 12; // number of arguments, less x
const PATH: u8 = 13; // a path (any form of it)
const EXT: u8 = 14; // its extension
const LIST: u8 = 15; // a collection of paths
const ITER: u8 = 16; // an iterator over paths
const IOERR: u8 = 17;
const SRC: u8 = 18; // contents of the file; x: 0 unchanged
const PT: u8 = 19; // part of the parse result: x
const ERRS: u8 = 20; // error messages
const EITER: u8 = 21;
const OUT: u8 = 22; // formatted text; x: 0 bare, 1 with end of line, 2 otherwise changed
const PROG: u8 = 23;
const FOREIGN: u8 = 24; // a path made from another one
const FILE: u8 = 25; // a file opened for writing
const NAME: u8 = 27; // a part of a path
const ARGX: u8 = 28; // some argument
const OPTS: u8 = 26; // how a file is opened; x: 1 write, 2 truncate, 4 append, 8 new only

const CLASSES: [&str; 7] = ["-h", "--help", "-v", "--version", "--check", "another option", "a path"];
const CHECK: u8 = 1 << 4;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Triple {
    entry: bool,
    dir: Option<bool>,
    mo: Option<bool>,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Item {
    t: Triple,
    queued: bool,
    /// 0: no, 1: started, 2: complete, 3: failed
    expand: u8,
    read: Option<bool>,
    parsed: bool,
    errs: Option<bool>,
    same: Option<bool>,
    verdict: Option<bool>,
    written: Option<bool>,
    /// 1: the text without its end of line, 2: all of it
    part: u8,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum CN {
    Item(Item),
    List { set: BTreeSet<Triple>, owes: bool },
    /// kind 0: arguments from pos on, 1: list, 2: directory `of`
    Iter { kind: u8, pos: u8, set: BTreeSet<Triple>, of: Id, open: bool, done: bool },
}
impl Node for CN {
    fn ids(&self, f: &mut dyn FnMut(Id)) {
        if let CN::Iter { of, .. } = self {
            if *of != 0 {
                f(*of)
            }
        }
    }
    fn rename(&mut self, m: &dyn Fn(Id) -> Option<Id>) {
        if let CN::Iter { of, .. } = self {
            if *of != 0 {
                *of = m(*of).unwrap_or(0)
            }
        }
    }
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct H {
    lo: u8,
    hi: u8,
    a1: u8,
    a1item: Option<Id>,
    /// 1: something, 2: mentions --check, 4: has a number with a dot
    out: u8,
    err: bool,
    touch: bool,
    wrote: bool,
    failed: bool,
    rderr: bool,
    outer: bool,
    /// where the paths start
    start: u8,
}
impl Ghost for H {
    fn roots(&self, f: &mut dyn FnMut(Id)) {
        if let Some(i) = self.a1item {
            f(i)
        }
    }
    fn rename(&mut self, f: &dyn Fn(Id) -> Option<Id>) {
        self.a1item = self.a1item.and_then(f)
    }
}
pub struct Cli {
    pub rep: Report,
    pub obligations: u64,
    pub exits: u64,
    pub judged: u64,
    pub writes: BTreeSet<String>,
    kind: i128,
    parsed: Vec<String>,
}
type S = State<Cli>;
fn cg(t: u8, id: Id, x: i32) -> Val {
    g(t, id, x, 0)
}
/// standard-library functions that change the file system
fn mutator(d: &str) -> bool {
    let p = ["std::fs::write", "std::fs::remove", "std::fs::rename", "std::fs::copy", "std::fs::create", "std::fs::hard_link", "std::fs::soft_link", "std::fs::set_", "std::fs::File::create", "std::fs::File::set_", "std::fs::File::options", "std::fs::OpenOptions", "std::fs::DirBuilder", "std::os::unix::fs::", "std::process::Command"];
    p.iter().any(|x| d.starts_with(x))
}

impl Cli {
    fn bad(&mut self, st: &S, p: &[&str], rule: &str, site: &Site, m: &str) {
        if !st.taint {
            self.rep.add(p, rule, site, m.to_string());
        }
    }
    fn item<'a>(&self, st: &'a S, id: Id) -> Option<&'a Item> {
        match st.node_opt(id) {
            Some(CN::Item(i)) => Some(i),
            _ => None,
        }
    }
    fn set(&self, st: &mut S, id: Id, f: impl FnOnce(&mut Item)) {
        if let Some(Obj::C(CN::Item(i))) = st.mem.get_mut(&id) {
            f(i)
        }
    }
    fn new_item(&self, st: &mut S, t: Triple) -> Id {
        st.alloc(Obj::C(CN::Item(Item { t, queued: false, expand: 0, read: None, parsed: false, errs: None, same: None, verdict: None, written: None, part: 0 })))
    }
    /// the path a value stands for
    fn path(&mut self, st: &mut S, v: &Val, site: &Site) -> Option<Id> {
        match st.load_all(v) {
            Val::G(G { t: PATH, id, .. }) => Some(id),
            Val::G(G { t: ARG, .. }) => {
                if st.g.a1item.is_none() {
                    let i = self.new_item(st, Triple { entry: false, dir: None, mo: None });
                    st.g.a1item = Some(i);
                    self.starts(st, 1, site);
                }
                st.g.a1item
            }
            _ => None,
        }
    }
    /// paths are taken from the command line from position `s` on
    fn starts(&mut self, st: &mut S, s: u8, site: &Site) {
        if st.g.start != 0 {
            return;
        }
        st.g.start = s;
        self.obligations += 1;
        for (i, n) in CLASSES.iter().enumerate() {
            if st.g.a1 >> i & 1 == 1 {
                if i != 4 && i != 6 {
                    self.bad(st, &["C23"], "option-as-path", site, &format!("paths are processed although the first argument may be {n}"));
                } else if i == 4 && s != 2 {
                    self.bad(st, &["C23", "C08"], "paths-start", site, "the option --check itself is taken for a path");
                } else if i == 6 && s != 1 {
                    self.bad(st, &["C23", "C08"], "paths-start", site, "not every given path is processed: the first is left out");
                }
            }
        }
    }
    fn one(st: S, v: Val) -> B<Self> {
        B::Outs(vec![(st, v)])
    }
    fn class(&self, st: &S, mask: u8) -> (Option<S>, Option<S>) {
        let f = |m: u8| {
            let mut s = st.clone();
            s.g.a1 &= m;
            (s.g.a1 != 0).then_some(s)
        };
        (f(mask), f(!mask))
    }
    fn nargs(&self, st: &S, op: &str, k: i128) -> Outs<Self> {
        let mut out = vec![];
        let (lo, hi) = (st.g.lo as i128, if st.g.hi == 255 { 1000 } else { st.g.hi as i128 });
        for (a, c, ord) in [(lo, hi.min(k - 1), -1), (lo.max(k), hi.min(k), 0), (lo.max(k + 1), hi, 1)] {
            if a > c {
                continue;
            }
            let mut s = st.clone();
            s.g.lo = a.clamp(0, 250) as u8;
            s.g.hi = if c >= 250 { 255 } else { c as u8 };
            let r = match op {
                "Lt" => ord < 0,
                "Le" => ord <= 0,
                "Eq" => ord == 0,
                "Ne" => ord != 0,
                "Ge" => ord >= 0,
                "Gt" => ord > 0,
                _ => return vec![(st.clone(), Val::Top)],
            };
            out.push((s, b(r)));
        }
        out
    }
    /// is an argument at position `i`
    fn has_arg(&self, st: &S, i: i128) -> (Option<S>, Option<S>) {
        let (mut y, mut n) = (None, None);
        for (s, v) in self.nargs(st, "Gt", i) {
            if v == Val::Int(1) {
                y = Some(s)
            } else if n.is_none() {
                n = Some(s)
            } else if let Some(m) = &mut n {
                m.g.lo = m.g.lo.min(s.g.lo);
                m.g.hi = m.g.hi.max(s.g.hi);
            }
        }
        (y, n)
    }
    fn arg(&mut self, st: &mut S, i: u8, site: &Site) -> Val {
        match i {
            0 => cg(PROG, 0, 0),
            1 => cg(ARG, 0, 1),
            _ => {
                let id = self.new_item(st, Triple { entry: false, dir: None, mo: None });
                self.starts(st, i, site);
                cg(PATH, id, 0)
            }
        }
    }
    fn queue(&mut self, st: &mut S, id: Id, set: &mut BTreeSet<Triple>) {
        if let Some(i) = self.item(st, id) {
            set.insert(i.t);
        }
        self.set(st, id, |i| i.queued = true);
    }
    /// the paths in a collection, which is emptied
    fn take(&mut self, st: &mut S, v: &Val, site: &Site) -> Option<BTreeSet<Triple>> {
        let mut set = BTreeSet::new();
        match v {
            Val::List(l) | Val::ListIter(l) => {
                for x in l.iter() {
                    let id = self.path(st, x, site)?;
                    self.queue(st, id, &mut set);
                }
            }
            Val::G(G { t: LIST, id, .. }) => {
                if let Some(Obj::C(CN::List { set: s, owes })) = st.mem.get_mut(id) {
                    set = s.clone();
                    s.clear();
                    *owes = false;
                }
            }
            Val::G(G { t: ITER, id, .. }) => {
                if let Some(Obj::C(CN::Iter { kind: 1, set: s, done, .. })) = st.mem.get_mut(id) {
                    set = s.clone();
                    *done = true;
                } else {
                    return None;
                }
            }
            _ => return None,
        }
        Some(set)
    }
    fn put(&mut self, st: &mut S, p: &Ptr, set: BTreeSet<Triple>, site: &Site) -> bool {
        if set.is_empty() {
            return true;
        }
        let v = st.read_ptr(p);
        if let Val::G(G { t: LIST, id, .. }) = v {
            if let Some(Obj::C(CN::List { set: s, owes })) = st.mem.get_mut(&id) {
                s.extend(set);
                *owes = true;
            }
            return true;
        }
        match self.take(st, &v, site) {
            Some(s) => {
                let id = st.alloc(Obj::C(CN::List { set: s.into_iter().chain(set).collect(), owes: true }));
                st.write_ptr(p, cg(LIST, id, 0));
                true
            }
            None => false,
        }
    }
    fn iterate(&mut self, st: &mut S, kind: u8, pos: u8, set: BTreeSet<Triple>, of: Id) -> Val {
        let open = kind != 0;
        let id = st.alloc(Obj::C(CN::Iter { kind, pos, set, of, open, done: false }));
        cg(ITER, id, 0)
    }
    fn next(&mut self, st: &S, id: Id, site: &Site) -> Option<Outs<Self>> {
        let Some(CN::Iter { kind, pos, set, of, open, done }) = st.node_opt(id).cloned() else { return None };
        if done {
            return Some(vec![(st.clone(), none())]);
        }
        let mut outs: Outs<Self> = vec![];
        let put = |s: &mut S, pos: u8, open: bool, done: bool| {
            s.mem.insert(id, Obj::C(CN::Iter { kind, pos, set: set.clone(), of, open, done }));
        };
        match kind {
            0 => {
                // the arguments before `pos` are known to be there, those after it one by one
                let many = pos >= 3;
                let (y, n) = if many { (Some(st.clone()), Some(st.clone())) } else { self.has_arg(st, pos as i128) };
                if let Some(mut s) = y {
                    let v = self.arg(&mut s, pos.max(if many { 3 } else { 0 }), site);
                    put(&mut s, (pos + 1).min(3), open || pos >= 1, false);
                    outs.push((s, some(refk(v))));
                }
                if let Some(mut s) = n {
                    put(&mut s, pos, open, true);
                    if pos == 2 || pos == 3 {
                        let p0 = if s.g.start == 0 { pos } else { s.g.start };
                        self.starts(&mut s, p0, site);
                    }
                    outs.push((s, none()));
                }
            }
            1 => {
                for t in &set {
                    let mut s = st.clone();
                    let i = self.new_item(&mut s, *t);
                    put(&mut s, pos, true, false);
                    outs.push((s, some(refk(cg(PATH, i, 0)))));
                }
                let mut s = st.clone();
                put(&mut s, pos, true, true);
                outs.push((s, none()));
            }
            _ => {
                let mut s = st.clone();
                let i = self.new_item(&mut s, Triple { entry: true, dir: None, mo: None });
                outs.push((s, some(agg(0, vec![cg(PATH, i, 0)]))));
                let mut s = st.clone();
                s.g.rderr = true;
                s.g.failed = true;
                outs.push((s, some(agg(1, vec![cg(IOERR, 0, 0)]))));
                let mut s = st.clone();
                put(&mut s, pos, true, true);
                self.set(&mut s, of, |i| i.expand = 2);
                outs.push((s, none()));
            }
        }
        Some(outs)
    }
    fn split(&self, st: &S, id: Id, known: Option<bool>, f: impl Fn(&mut Item, bool)) -> Outs<Self> {
        [true, false]
            .into_iter()
            .filter(|x| known.is_none() || known == Some(*x))
            .map(|x| {
                let mut s = st.clone();
                self.set(&mut s, id, |i| f(i, x));
                (s, b(x))
            })
            .collect()
    }
    /// is the extension `mo` but for case
    fn nocase(&mut self, st: &S, id: Id) -> Outs<Self> {
        let known = self.item(st, id).and_then(|i| i.t.mo);
        let mut o = self.split(st, id, known, |i, x| i.t.mo = Some(x));
        if known != Some(true) {
            let mut s = st.clone();
            self.set(&mut s, id, |i| i.t.mo = Some(false));
            o.push((s, b(true)));
        }
        o
    }
    /// has everything been done with the path that had to be done; true: it failed
    fn judge(&mut self, st: &S, i: &Item, site: &Site) -> bool {
        self.judged += 1;
        self.obligations += 1;
        let t = i.t;
        if i.queued {
            return false;
        }
        match i.expand {
            1 => {
                if !st.g.rderr {
                    self.bad(st, &["C10"], "directory-partly", site, "a directory may be searched only in part");
                }
                return false;
            }
            2 => return false,
            3 => return true,
            _ => (),
        }
        let what = if t.entry { "a directory entry" } else { "a given path" };
        if t.dir == Some(true) {
            self.bad(st, &["C10"], "directory-dropped", site, &format!("{what} that is a directory is not searched"));
            return false;
        }
        if t.entry && t.mo == Some(false) {
            if i.read.is_some() {
                self.bad(st, &["C10"], "other-file", site, "a file of a directory is processed although it is no .mo file");
            }
            if t.dir.is_none() {
                self.bad(st, &["C10"], "directory-dropped", site, "a directory entry is dropped without asking whether it is a directory");
            }
            return false;
        }
        if t.entry && i.read.is_none() {
            self.bad(st, &["C10"], "entry-dropped", site, if t.mo.is_none() { "a directory entry is dropped without asking whether it is a .mo file" } else { "a .mo file of a directory is dropped" });
            return false;
        }
        if t.dir.is_none() && !(t.entry && t.mo == Some(true)) {
            self.bad(st, &["C10"], "directory-dropped", site, &format!("{what} is taken for a file without asking whether it is a directory"));
        }
        if t.mo == Some(false) {
            return true;
        }
        match i.read {
            None => {
                self.bad(st, &["C08"], "not-read", site, "a given file is not read");
                return false;
            }
            Some(false) => return true,
            _ => (),
        }
        if !i.parsed {
            self.bad(st, &["C08"], "not-parsed", site, "a file that was read is not parsed");
            return false;
        }
        match i.errs {
            None => {
                self.bad(st, &["C08"], "errors-ignored", site, "the outcome does not depend on whether the file has syntax errors");
                return false;
            }
            Some(true) => return true,
            _ => (),
        }
        if st.g.a1 == CHECK {
            match (i.same, i.verdict) {
                (None, _) => {
                    self.bad(st, &["C09"], "not-compared", site, "in check mode the formatted text is not compared with the contents");
                    false
                }
                (Some(s), None) => {
                    self.bad(st, &["C09"], "no-verdict", site, &format!("no verdict is printed for a file that {} the check", if s { "passes" } else { "fails" }));
                    !s
                }
                (Some(s), _) => !s,
            }
        } else {
            match i.written {
                None => {
                    if i.same != Some(true) && st.g.a1 & CHECK == 0 {
                        self.bad(st, &["C07", "C08"], "not-written", site, "the formatted text of a file is not written");
                    }
                    false
                }
                Some(ok) => {
                    if ok && i.part != 2 {
                        self.bad(st, &["C07"], "write-text", site, "what is written is not the formatted text followed by one end of line");
                    }
                    !ok
                }
            }
        }
    }
    fn exit(&mut self, st: &S, code: &Val, site: &Site) {
        if st.taint {
            return;
        }
        self.exits += 1;
        self.obligations += 1;
        let mut st = st.clone();
        let nodes: Vec<CN> = st.mem.values().filter_map(|o| if let Obj::C(n) = o { Some(n.clone()) } else { None }).collect();
        let mut left = st.g.outer;
        for n in nodes {
            match n {
                CN::Item(i) => {
                    if st.g.a1 & (CHECK | 1 << 6) != 0 {
                        let f = self.judge(&st, &i, site);
                        st.g.failed |= f;
                    }
                }
                CN::List { owes, .. } => left |= owes,
                CN::Iter { kind, open, done, .. } => left |= open && !done && (kind != 0 || st.g.start != 0),
            }
        }
        if left {
            self.bad(&st, &["C08"], "exit-early", site, "the program may end before all the given files are processed");
            return;
        }
        let code = match code {
            Val::Int(i) => *i,
            Val::G(G { t: GE, .. }) => 99,
            _ => {
                self.rep.und.insert(format!("exit status is not known in {}", site.func));
                return;
            }
        };
        let g = st.g.clone();
        if g.lo <= 1 && g.hi >= 2 {
            self.bad(&st, &["C23"], "no-arguments", site, "the program ends without having looked whether there are arguments");
        }
        let usage = |me: &mut Self, case: &str, st: &S| {
            if code != 1 {
                me.bad(st, &["C23", "C08"], "exit-usage", site, &format!("{case}: the exit status is {code} instead of 1"));
            }
            if !g.err {
                me.bad(st, &["C23"], "usage-message", site, &format!("{case}: nothing is printed to standard error"));
            }
            if g.touch {
                me.bad(st, &["C23"], "usage-touch", site, &format!("{case}: files are touched"));
            }
        };
        if g.lo <= 1 && g.hi == 1 {
            usage(self, "without arguments", &st);
            return;
        }
        for (i, n) in CLASSES.iter().enumerate() {
            if g.a1 >> i & 1 == 0 {
                continue;
            }
            match i {
                0..=3 => {
                    if code != 0 {
                        self.bad(&st, &["C23"], "exit-info", site, &format!("{n}: the exit status is {code} instead of 0"));
                    }
                    if g.out & 1 == 0 {
                        self.bad(&st, &["C23"], "info-message", site, &format!("{n}: nothing is printed to standard output"));
                    } else if i < 2 && g.out & 2 == 0 {
                        self.bad(&st, &["C23"], "info-message", site, &format!("{n}: the help text is not printed"));
                    } else if i >= 2 && g.out & 4 == 0 {
                        self.bad(&st, &["C23"], "info-message", site, &format!("{n}: the version is not printed"));
                    }
                    if g.touch {
                        self.bad(&st, &["C23"], "usage-touch", site, &format!("{n}: files are touched"));
                    }
                }
                5 => usage(self, "with an unknown option", &st),
                4 if g.hi == 2 => usage(self, "with --check and no paths", &st),
                _ => {
                    if g.start == 0 {
                        self.bad(&st, &["C08", "C23"], "no-paths", site, &format!("the program ends without processing the paths, although the first argument may be {n}"));
                    } else if code != g.failed as i128 {
                        let m = if g.failed { format!("the exit status is {code} although a file failed") } else { format!("the exit status is {code} although nothing failed") };
                        self.bad(&st, &["C08"], "exit-status", site, &m);
                    }
                }
            }
        }
    }
    fn print(&mut self, st: &mut S, v: &Val, err: bool, site: &Site) {
        if err {
            st.g.err = true;
            return;
        }
        st.g.out |= 1;
        let pieces: Vec<Val> = match st.load_all(v) {
            Val::Agg(_, f) => f.to_vec(),
            v => vec![v],
        };
        let mut text = String::new();
        let mut ids = vec![];
        for p in &pieces {
            match st.load_all(p) {
                Val::Str(s) => text.push_str(&s),
                Val::G(G { t: PATH, id, .. }) => ids.push(id),
                Val::G(G { t: ARG, .. }) => ids.extend(st.g.a1item),
                _ => (),
            }
        }
        if text.contains("--check") {
            st.g.out |= 2;
        }
        let c: Vec<char> = text.chars().collect();
        if c.windows(3).any(|w| w[0].is_ascii_digit() && w[1] == '.' && w[2].is_ascii_digit()) {
            st.g.out |= 4;
        }
        let low = text.to_lowercase();
        let (p, f) = (low.contains("passed"), low.contains("failed"));
        if p != f && ids.len() == 1 && st.g.a1 == CHECK {
            if let Some(i) = self.item(st, ids[0]).cloned() {
                if i.parsed && i.errs == Some(false) {
                    self.obligations += 1;
                    if i.same.is_none() {
                        self.bad(st, &["C09"], "verdict-early", site, "a verdict is printed without comparing the formatted text with the contents");
                    } else if i.same != Some(p) {
                        self.bad(st, &["C09"], "verdict-wrong", site, if p { "a file that formatting would change is reported as passed" } else { "a file that formatting would leave unchanged is reported as failed" });
                    }
                    self.set(st, ids[0], |i| i.verdict = Some(p));
                } else if p {
                    self.bad(st, &["C09"], "verdict-wrong", site, "a file that could not be read or has errors is reported as passed");
                }
            }
        }
    }
    /// text joined from two pieces
    fn cat(&self, x: &Val, y: &Val) -> Option<Val> {
        match (x, y) {
            (Val::G(G { t: OUT, id, x: 0, .. }), Val::Str(s)) if &**s == "\n" => Some(cg(OUT, *id, 1)),
            (v @ Val::G(G { t: OUT | SRC, .. }), Val::Str(s)) if s.is_empty() => Some(v.clone()),
            (Val::Str(s), v @ Val::G(G { t: OUT | SRC, .. })) if s.is_empty() => Some(v.clone()),
            (Val::G(G { t: OUT, id, .. }), _) | (_, Val::G(G { t: OUT, id, .. })) => Some(cg(OUT, *id, 2)),
            (Val::G(G { t: SRC, id, .. }), _) | (_, Val::G(G { t: SRC, id, .. })) => Some(cg(SRC, *id, 2)),
            _ => None,
        }
    }
    /// a file is about to be emptied or written
    fn write_right(&mut self, st: &S, to: Id, site: &Site) {
        self.writes.insert(site.func.clone());
        self.obligations += 1;
        if let Some(i) = self.item(st, to).cloned() {
            if st.g.a1 & CHECK != 0 {
                self.bad(st, &["C07", "C09"], "check-writes", site, "a file is written in check mode");
            }
            if i.t.mo != Some(true) {
                self.bad(st, &["C07"], "write-other", site, "a file is written that may be no .mo file");
            }
            if i.read != Some(true) {
                self.bad(st, &["C07"], "write-unread", site, "a file is written that was not read");
            } else if i.errs != Some(false) {
                self.bad(st, &["C07"], "write-errors", site, "a file is written although it may have syntax errors");
            }
        }
    }
    /// what is in the file once `data` has been written to it
    fn write_data(&mut self, st: &S, to: Id, data: &Val, site: &Site) -> u8 {
        let part = self.item(st, to).map(|i| i.part).unwrap_or(0);
        match (part, data) {
            (0, Val::G(G { t: OUT, id, x: 1, .. })) if *id == to => 2,
            (0, Val::G(G { t: OUT, id, x: 0, .. })) if *id == to => 1,
            (1, Val::Str(s)) if &**s == "\n" => 2,
            (p, Val::Str(s)) if s.is_empty() => p,
            (_, Val::Agg(_, f)) if !f.is_empty() => {
                let mut s = st.clone();
                let mut p = part;
                for v in f.iter() {
                    let v = st.load_all(v);
                    p = self.write_data(&s, to, &v, site);
                    self.set(&mut s, to, |i| i.part = p);
                }
                p
            }
            (_, Val::Top) => {
                self.rep.und.insert(format!("text written by {} is not known", site.func));
                2
            }
            (0, Val::G(G { t: OUT, id, .. })) if *id == to => {
                self.bad(st, &["C07"], "write-text", site, "what is written is not the formatted text followed by one end of line");
                2
            }
            (_, Val::G(G { t: OUT, id, .. })) if *id != to => {
                self.bad(st, &["C07", "C19"], "write-text", site, "the formatted text of another file is written");
                2
            }
            _ => {
                self.bad(st, &["C07"], "write-text", site, "what is written is not the formatted text of the file");
                2
            }
        }
    }
    fn write(&mut self, st: &S, to: Id, data: &Val, whole: bool, site: &Site) -> Outs<Self> {
        if whole {
            self.write_right(st, to, site);
        }
        let mut s0 = st.clone();
        if whole {
            self.set(&mut s0, to, |i| i.part = 0);
        }
        let part = self.write_data(&s0, to, data, site);
        let mut outs = vec![];
        for ok in [true, false] {
            let mut s = st.clone();
            s.g.touch = true;
            s.g.wrote = true;
            self.set(&mut s, to, |i| {
                i.part = part;
                i.written = Some(ok && i.written != Some(false));
            });
            outs.push((s, if ok { agg(0, vec![unit()]) } else { agg(1, vec![cg(IOERR, 0, 0)]) }));
        }
        outs
    }
    fn open(&mut self, st: &S, path: &Val, site: &Site) -> Option<Outs<Self>> {
        let mut s = st.clone();
        let Some(id) = self.path(&mut s, path, site) else {
            if !matches!(st.load_all(path), Val::Top | Val::Any) {
                self.bad(st, &["C07"], "write-elsewhere", site, "something is written to a path that is none of the given ones");
                return Some(vec![]);
            }
            return None;
        };
        self.write_right(&s, id, site);
        s.g.touch = true;
        s.g.wrote = true;
        let mut n = s.clone();
        self.set(&mut n, id, |i| i.written = Some(false));
        Some(vec![(s, agg(0, vec![cg(FILE, id, 0)])), (n, agg(1, vec![cg(IOERR, 0, 0)]))])
    }
}

impl Client for Cli {
    type N = CN;
    type H = H;
    fn builtin(&mut self, ir: &Ir, c: &Callee, a: &[Val], st: &S, site: &Site) -> B<Self> {
        let d = c.decl.as_str();
        let last = d.rsplit("::").next().unwrap_or("");
        let v0 = a.first().map(|v| st.load_all(v)).unwrap_or(Val::Un);
        let gt = if let Val::G(x) = &v0 { x.t } else { 0 };
        let one = Self::one;
        // the library
        if c.f.is_some() {
            let n = &ir.fns[c.f.unwrap()];
            if n.krate == "mofmt" && (n.path == "mofmt::parse" || n.full.ends_with("::parser::parse")) && a.len() == 3 {
                let mut s = st.clone();
                self.obligations += 1;
                let name = self.path(&mut s, &a[0], site);
                match st.load_all(&a[1]) {
                    Val::G(G { t: SRC, id, x, .. }) => {
                        if x != 0 {
                            self.bad(st, &["C07", "C09"], "parse-text", site, "what is parsed is not the contents of the file");
                        }
                        if name.is_some() && name != Some(id) {
                            self.bad(st, &["C14", "C19"], "parse-name", site, "a file is parsed under the name of another");
                        }
                        if name.is_none() {
                            self.bad(st, &["C14"], "parse-name", site, "a file is not parsed under its name");
                        }
                        if let Val::Int(k) = a[2] {
                            if k != self.kind {
                                self.bad(st, &["C07", "C12"], "parse-entry", site, "a file is not parsed as a stored definition");
                            }
                        }
                        self.set(&mut s, id, |i| i.parsed = true);
                        let f = self.parsed.iter().enumerate().map(|(_, n)| match n.as_str() {
                            "tokens" => cg(PT, id, 0),
                            "comments" => cg(PT, id, 1),
                            "events" => cg(PT, id, 2),
                            "errors" => cg(ERRS, id, 0),
                            _ => Val::Top,
                        });
                        return one(s, agg(0, f.collect()));
                    }
                    Val::Top => {
                        s.taint = true;
                        return one(s, Val::Top);
                    }
                    _ => {
                        self.bad(st, &["C07", "C09"], "parse-text", site, "what is parsed is not the contents of the file");
                        return B::Outs(vec![]);
                    }
                }
            }
            if n.krate == "mofmt" && n.path.ends_with("pretty_print") && a.len() == 3 {
                let ids: Vec<(Id, i32)> = a.iter().filter_map(|v| if let Val::G(G { t: PT, id, x, .. }) = st.load_all(v) { Some((id, x)) } else { None }).collect();
                if ids.len() != 3 || (0..3).any(|k| ids[k].1 != k as i32 || ids[k].0 != ids[0].0) {
                    self.bad(st, &["C07", "C03"], "format-parts", site, "what is formatted is not the tokens, comments and events of one file");
                    return B::Outs(vec![]);
                }
                if self.item(st, ids[0].0).is_some_and(|i| i.errs != Some(false)) {
                    self.bad(st, &["C08", "C07"], "format-errors", site, "a file is formatted although it may have syntax errors");
                }
                return one(st.clone(), cg(OUT, ids[0].0, 0));
            }
        }
        match d {
            "std::env::args" => {
                let mut s = st.clone();
                let v = self.iterate(&mut s, 0, 0, BTreeSet::new(), 0);
                return one(s, v);
            }
            "std::process::exit" => {
                self.exit(st, &a[0], site);
                return B::Outs(vec![]);
            }
            "std::io::_print" | "std::io::_eprint" => {
                let mut s = st.clone();
                self.print(&mut s, &a[0], last == "_eprint", site);
                return one(s, unit());
            }
            "std::io::stdout" | "std::io::stderr" | "std::io::Stdout::lock" | "std::io::Stderr::lock" => {
                let e = d.contains("err") || d.contains("Stderr");
                return one(st.clone(), Val::Str(Rc::from(if e { "\u{1}stderr" } else { "\u{1}stdout" })));
            }
            "std::io::Write::write_fmt" | "std::io::Write::write_all" if matches!(&v0, Val::Str(s) if s.starts_with('\u{1}')) => {
                let mut s = st.clone();
                let e = matches!(&v0, Val::Str(s) if &**s == "\u{1}stderr");
                self.print(&mut s, &a[1], e, site);
                return one(s, agg(0, vec![unit()]));
            }
            "std::fs::File::create" => {
                if let Some(o) = self.open(st, &a[0], site) {
                    return B::Outs(o);
                }
                return B::Unknown(format!("path written by {}", site.func));
            }
            "std::fs::OpenOptions::new" | "std::fs::File::options" => return one(st.clone(), cg(OPTS, 0, 0)),
            _ if gt == OPTS && last != "open" => {
                let bit = match last {
                    "write" => 1,
                    "truncate" => 2,
                    "append" => 4,
                    "create_new" => 8,
                    _ => 0,
                };
                if let (Val::G(G { x, .. }), Some(Val::Int(on))) = (&v0, a.get(1)) {
                    let x = if *on != 0 { x | bit } else { x & !bit };
                    let mut s = st.clone();
                    if let Some(p) = st.last_ptr(&a[0]) {
                        s.write_ptr(&p, cg(OPTS, 0, x));
                        return one(s, a[0].clone());
                    }
                    return one(s, cg(OPTS, 0, x));
                }
            }
            _ if gt == OPTS => {
                if let Val::G(G { x, .. }) = v0 {
                    if x & 7 != 0 {
                        if x & 2 == 0 {
                            self.bad(st, &["C07"], "write-text", site, "the file is not emptied before it is written, so that what is longer remains");
                            return B::Outs(vec![]);
                        }
                        if let Some(o) = self.open(st, &a[1], site) {
                            return B::Outs(o);
                        }
                    }
                }
                return B::Unknown(format!("file opened by {}", site.func));
            }
            "std::io::Write::write_fmt" | "std::io::Write::write_all" if gt == FILE => {
                if let Val::G(G { id, .. }) = v0 {
                    let data = st.load_all(&a[1]);
                    return B::Outs(self.write(st, id, &data, false, site));
                }
            }
            "std::io::Write::write" if gt == FILE => {
                self.bad(st, &["C07"], "write-text", site, "the text may be written in part only");
                return B::Outs(vec![]);
            }
            "std::fs::File::sync_all" | "std::fs::File::sync_data" if gt == FILE => return one(st.clone(), agg(0, vec![unit()])),
            "std::io::Write::flush" => return one(st.clone(), agg(0, vec![unit()])),
            "std::fs::read_to_string" => {
                let mut s = st.clone();
                s.g.touch = true;
                if let Some(id) = self.path(&mut s, &a[0], site) {
                    let mut y = s.clone();
                    self.set(&mut y, id, |i| i.read = Some(true));
                    self.set(&mut s, id, |i| i.read = Some(false));
                    return B::Outs(vec![(y, agg(0, vec![cg(SRC, id, 0)])), (s, agg(1, vec![cg(IOERR, 0, 0)]))]);
                }
            }
            "std::fs::write" => {
                let mut s = st.clone();
                let data = st.load_all(&a[1]);
                match self.path(&mut s, &a[0], site) {
                    Some(id) => return B::Outs(self.write(&s, id, &data, true, site)),
                    None => {
                        if !matches!(st.load_all(&a[0]), Val::Top | Val::Any) {
                            self.bad(st, &["C07"], "write-elsewhere", site, "something is written to a path that is none of the given ones");
                        } else {
                            return B::Unknown(format!("path written by {}", site.func));
                        }
                        return B::Outs(vec![]);
                    }
                }
            }
            "std::fs::read_dir" => {
                let mut s = st.clone();
                s.g.touch = true;
                if let Some(id) = self.path(&mut s, &a[0], site) {
                    let mut y = s.clone();
                    self.set(&mut y, id, |i| i.expand = 1);
                    self.set(&mut s, id, |i| i.expand = 3);
                    s.g.rderr = true;
                    s.g.failed = true;
                    let it = self.iterate(&mut y, 2, 0, BTreeSet::new(), id);
                    return B::Outs(vec![(y, agg(0, vec![it])), (s, agg(1, vec![cg(IOERR, 0, 0)]))]);
                }
            }
            // the type of a directory entry itself: a link to a directory is none
            "std::fs::FileType::is_dir" | "std::fs::FileType::is_file" | "std::fs::FileType::is_symlink" if gt == PATH => {
                if let Val::G(G { id, .. }) = v0 {
                    let (mut y, dir) = (st.clone(), last == "is_dir");
                    let known = self.item(st, id).and_then(|i| i.t.dir);
                    let mut o = vec![(st.clone(), b(false))];
                    if known != Some(!dir) || last == "is_symlink" {
                        if last != "is_symlink" {
                            self.set(&mut y, id, |i| i.t.dir = Some(dir));
                        }
                        o.push((y, b(true)));
                    }
                    return B::Outs(o);
                }
            }
            "std::path::Path::is_dir" | "std::path::Path::is_file" => {
                let mut s = st.clone();
                if let Some(id) = self.path(&mut s, &a[0], site) {
                    let known = self.item(&s, id).and_then(|i| i.t.dir);
                    if last == "is_dir" {
                        return B::Outs(self.split(&s, id, known, |i, x| i.t.dir = Some(x)));
                    }
                    let mut y = s.clone();
                    self.set(&mut y, id, |i| i.t.dir = Some(false));
                    let mut o = vec![(s, b(false))];
                    if known != Some(true) {
                        o.push((y, b(true)));
                    }
                    return B::Outs(o);
                }
            }
            "std::fs::DirEntry::file_type" | "std::fs::DirEntry::metadata" | "std::fs::metadata" | "std::path::Path::metadata" if gt == PATH => {
                let mut s = st.clone();
                s.g.rderr = true;
                s.g.failed = true;
                return B::Outs(vec![(st.clone(), agg(0, vec![v0])), (s, agg(1, vec![cg(IOERR, 0, 0)]))]);
            }
            "std::fs::Metadata::file_type" if gt == PATH => return one(st.clone(), v0),
            "std::fs::Metadata::is_dir" if gt == PATH => {
                if let Val::G(G { id, .. }) = v0 {
                    let known = self.item(st, id).and_then(|i| i.t.dir);
                    return B::Outs(self.split(st, id, known, |i, x| i.t.dir = Some(x)));
                }
            }
            "std::path::Path::extension" => {
                let mut s = st.clone();
                if let Some(id) = self.path(&mut s, &a[0], site) {
                    let known = self.item(&s, id).and_then(|i| i.t.mo);
                    let mut o = vec![];
                    if known != Some(true) {
                        let mut n = s.clone();
                        self.set(&mut n, id, |i| i.t.mo = Some(false));
                        o.push((n, none()));
                    }
                    o.push((s, some(cg(EXT, id, 0))));
                    return B::Outs(o);
                }
            }
            "std::path::Path::exists" | "std::path::Path::try_exists" if gt == PATH => return B::No,
            _ => (),
        }
        if mutator(d) && c.f.is_none() {
            if d.starts_with("std::process::Command") {
                self.bad(st, &["C07"], "write-elsewhere", site, &format!("another program is run: {d}"));
            } else {
                self.bad(st, &["C07"], "write-elsewhere", site, &format!("the file system is changed by {d}"));
            }
            return B::Outs(vec![]);
        }
        if matches!(gt, PATH | FOREIGN) && (d.contains("Path") || gt == FOREIGN) {
            match last {
                "with_extension" | "with_file_name" | "join" | "parent" | "canonicalize" if gt == PATH => {
                    let f = cg(FOREIGN, 0, 0);
                    let v = match last {
                        "parent" => some(f),
                        "canonicalize" => return B::Unknown(format!("{d} called by {}", site.func)),
                        _ => f,
                    };
                    return one(st.clone(), v);
                }
                "deref" | "as_ref" | "as_path" | "to_path_buf" | "display" | "to_string" | "clone" | "with_extension" | "with_file_name" | "join" => return one(st.clone(), v0),
                "exists" | "is_file" | "is_dir" => return one(st.clone(), Val::Any),
                _ => (),
            }
        }
        if matches!(gt, PATH | NAME | ARGX) {
            match last {
                "file_name" | "file_stem" if gt == PATH => return B::Outs(vec![(st.clone(), some(cg(NAME, 0, 0))), (st.clone(), none())]),
                "ends_with" => {
                    if let (PATH, Val::G(G { id, .. }), Some(Val::Str(x)), false) = (gt, &v0, a.get(1).map(|v| st.load_all(v)), d.contains("Path")) {
                        if &*x == ".mo" {
                            let known = self.item(st, *id).and_then(|i| i.t.mo);
                            return B::Outs(self.split(st, *id, known, |i, x| i.t.mo = Some(x)));
                        }
                    }
                    return one(st.clone(), Val::Any);
                }
                "starts_with" | "contains" | "is_empty" | "len" | "eq_ignore_ascii_case" | "is_absolute" | "is_relative" | "is_symlink" | "has_root" => return one(st.clone(), Val::Any),
                "to_str" if gt == NAME => return B::Outs(vec![(st.clone(), some(v0.clone())), (st.clone(), none())]),
                "deref" | "as_ref" | "to_string_lossy" | "into_owned" | "as_str" | "clone" | "to_owned" | "as_encoded_bytes" | "as_bytes" | "into" | "from" | "display" | "to_string" if gt != PATH => return one(st.clone(), v0),
                _ => (),
            }
        }
        if gt == EXT {
            if let (Val::G(G { id, .. }), "eq_ignore_ascii_case") = (&v0, last) {
                if matches!(a.get(1).map(|v| st.load_all(v)), Some(Val::Str(s)) if s.eq_ignore_ascii_case("mo")) {
                    return B::Outs(self.nocase(st, *id));
                }
            }
            if let (Val::G(G { id, .. }), "to_ascii_lowercase" | "to_lowercase" | "to_ascii_uppercase" | "to_uppercase") = (&v0, last) {
                return one(st.clone(), cg(EXT, *id, if last.contains("lower") { 1 } else { 2 }));
            }
        }
        // paths, names, arguments: every form stands for the same
        if gt == PATH || gt == ARG || gt == EXT || gt == PROG {
            match last {
                "deref" | "as_ref" | "borrow" | "as_path" | "to_path_buf" | "into" | "from" | "to_owned" | "display" | "to_string" | "as_str" | "to_string_lossy" | "into_owned" | "new" | "as_os_str" | "path" | "clone" | "into_os_string" | "to_lowercase_" | "into_boxed_path" | "as_mut_os_str" | "into_string_" | "as_deref" => {
                    let mut s = st.clone();
                    if gt == ARG && (d.contains("PathBuf") || c.dargs.iter().any(|t| ir.types[*t].s.contains("std::path::Path"))) {
                        if let Some(id) = self.path(&mut s, &a[0], site) {
                            return one(s, cg(PATH, id, 0));
                        }
                    }
                    return one(s, v0);
                }
                "to_str" => {
                    let mut o = vec![(st.clone(), some(v0.clone()))];
                    let mut n = st.clone();
                    if let (EXT, Val::G(G { id, .. })) = (gt, &v0) {
                        if self.item(st, *id).and_then(|i| i.t.mo) == Some(true) {
                            return B::Outs(o);
                        }
                        self.set(&mut n, *id, |i| i.t.mo = Some(false));
                        o.push((n, none()));
                    }
                    return B::Outs(o);
                }
                "starts_with" if gt == ARG => {
                    let dash = match st.load_all(&a[1]) {
                        Val::Int(45) => Some(true),
                        Val::Str(s) if &*s == "-" => Some(true),
                        Val::Str(s) if &*s == "--" => Some(false),
                        _ => None,
                    };
                    match dash {
                        Some(true) => {
                            let (y, n) = self.class(st, 0x3f);
                            return B::Outs(y.into_iter().map(|s| (s, b(true))).chain(n.into_iter().map(|s| (s, b(false)))).collect());
                        }
                        Some(false) => {
                            let (y, _) = self.class(st, 0b111010);
                            let (n, _) = self.class(st, 0b1100101);
                            return B::Outs(y.into_iter().map(|s| (s, b(true))).chain(n.into_iter().map(|s| (s, b(false)))).collect());
                        }
                        None => (),
                    }
                }
                "starts_with" | "is_empty" => return one(st.clone(), Val::Any),
                _ => (),
            }
        }
        match last {
            "new" if d.starts_with("std::ffi::OsStr") || d.starts_with("std::path::Path::new") => return one(st.clone(), v0),
            "next" if gt == ITER => {
                if let Val::G(G { id, .. }) = v0 {
                    if let Some(o) = self.next(st, id, site) {
                        // by value for the arguments and owned lists, by reference for slices;
                        // references to path values are read through
                        return B::Outs(o);
                    }
                }
            }
            "next" if gt == EITER => {
                if let Val::G(G { id, .. }) = v0 {
                    return B::Outs(vec![(st.clone(), some(refk(cg(ERRS, id, 1)))), (st.clone(), none())]);
                }
            }
            "take" | "step_by" | "skip" | "take_while" | "skip_while" | "nth" | "map_while" if gt == ITER && d.contains("Iterator") && matches!(&v0, Val::G(G { id, .. }) if matches!(st.node_opt(*id), Some(CN::Iter { kind: 1 | 2, .. }))) => {
                self.bad(st, &["C08", "C10"], "left-out", site, &format!("not all of the files are processed: {last}"));
                return B::Outs(vec![]);
            }
            "rev" if gt == ITER && d.contains("Iterator") => return one(st.clone(), v0),
            "truncate" | "clear" if gt == LIST => {
                self.bad(st, &["C08", "C10"], "files-lost", site, "files that were found are dropped without being processed");
                return B::Outs(vec![]);
            }
            "skip" if gt == ITER && d.contains("Iterator") => {
                if let (Val::G(G { id, .. }), Some(Val::Int(n))) = (&v0, a.get(1)) {
                    if let Some(CN::Iter { kind: 0, pos, of, .. }) = st.node_opt(*id).cloned() {
                        let mut s = st.clone();
                        s.mem.insert(*id, Obj::C(CN::Iter { kind: 0, pos: (pos as i128 + n).min(3) as u8, set: BTreeSet::new(), of, open: false, done: false }));
                        return one(s, v0);
                    }
                }
            }
            "from_iter" if gt == ITER => {
                if let Val::G(G { id, .. }) = v0 {
                    match st.node_opt(id).cloned() {
                        Some(CN::Iter { kind: 0, pos, open: false, .. }) => return one(st.clone(), cg(ARGV, 0, pos as i32)),
                        Some(CN::Iter { kind: 0, pos, .. }) => {
                            let mut s = st.clone();
                            s.mem.remove(&id);
                            return one(s, cg(ARGV, 0, pos as i32));
                        }
                        _ => (),
                    }
                }
            }
            "deref" | "deref_mut" | "as_slice" | "as_ref" | "borrow" | "as_mut_slice" | "into_boxed_slice" | "to_vec" | "as_str" if matches!(gt, ARGV | LIST | ERRS | OUT | SRC | IOERR | PT) => return one(st.clone(), v0),
            "iter" | "into_iter" | "iter_mut" | "drain" => match v0 {
                Val::G(G { t: ARGV, x, .. }) => {
                    let mut s = st.clone();
                    let v = self.iterate(&mut s, 0, x as u8, BTreeSet::new(), 0);
                    return one(s, v);
                }
                Val::G(G { t: LIST, .. }) => {
                    let mut s = st.clone();
                    let set = self.take(&mut s, &v0, site).unwrap_or_default();
                    // the list may be walked again, but owes nothing any more
                    if let Val::G(G { id, .. }) = v0 {
                        s.mem.insert(id, Obj::C(CN::List { set: set.clone(), owes: false }));
                    }
                    let v = self.iterate(&mut s, 1, 0, set, 0);
                    return one(s, v);
                }
                Val::G(G { t: ERRS, id, .. }) => return one(st.clone(), cg(EITER, id, 0)),
                Val::G(G { t: ITER | EITER, .. }) => return one(st.clone(), v0),
                _ => (),
            },
            "len" if gt == ARGV => {
                if let Val::G(G { x, .. }) = v0 {
                    return one(st.clone(), cg(NARGS, 0, x));
                }
            }
            "is_empty" | "len" if gt == ERRS => {
                if let Val::G(G { id, .. }) = v0 {
                    let known = self.item(st, id).and_then(|i| i.errs);
                    let o = self.split(st, id, known.map(|e| !e), |i, x| i.errs = Some(!x));
                    if last == "is_empty" {
                        return B::Outs(o);
                    }
                    return B::Outs(o.into_iter().map(|(s, v)| (s, if v == Val::Int(1) { Val::Int(0) } else { g(GE, 0, 1, 0) })).collect());
                }
            }
            "is_empty" if gt == ARGV => {
                if let Val::G(G { x, .. }) = v0 {
                    return B::Outs(self.nargs(st, "Le", x as i128));
                }
            }
            "is_empty" | "len" if matches!(gt, LIST | OUT | SRC) => return one(st.clone(), Val::Any),
            "join" | "concat" if gt == ERRS => return one(st.clone(), v0),
            "sort" | "sort_unstable" | "reverse" | "shrink_to_fit" | "reserve" if gt == LIST => return one(st.clone(), unit()),
            "to_string" if gt == IOERR || gt == ERRS => return one(st.clone(), Val::Any),
            "to_string" | "clone" | "to_owned" | "into" | "from" | "into_string" if matches!(gt, OUT | SRC | ERRS) => return one(st.clone(), v0),
            "index" | "get" | "first" | "get_unchecked" if gt == ARGV => {
                let off = if let Val::G(G { x, .. }) = v0 { x as i128 } else { 0 };
                let idx = if last == "first" { Some(Val::Int(0)) } else { a.get(1).map(|v| st.load_all(v)) };
                match idx {
                    Some(Val::Int(i)) => {
                        let (y, n) = self.has_arg(st, off + i);
                        let mut o = vec![];
                        if let Some(mut s) = y {
                            let k = off + i;
                            let v = if k <= 1 { Some(self.arg(&mut s, k as u8, site)) } else { None };
                            let v = match v {
                                Some(v) => refk(v),
                                None => return B::Unknown(format!("argument {k} is used directly in {}", site.func)),
                            };
                            o.push((s, if last == "index" { v } else { some(v) }));
                        }
                        if let Some(s) = n {
                            if last == "index" {
                                self.panic(ir, "an argument that is not there is used", &s, site);
                            } else {
                                o.push((s, none()));
                            }
                        }
                        return B::Outs(o);
                    }
                    Some(Val::G(G { t: NARGS, .. })) => {
                        let v = refk(cg(ARGX, 0, 0));
                        return one(st.clone(), if last == "index" { v } else { some(v) });
                    }
                    Some(Val::Agg(_, f)) if f.len() == 1 && c.dargs.iter().any(|t| ir.types[*t].s.contains("RangeFrom")) => {
                        if let Val::Int(i) = f[0] {
                            let (y, n) = self.has_arg(st, off + i - 1);
                            let mut o = vec![];
                            if let Some(s) = y {
                                let v = cg(ARGV, 0, (off + i) as i32);
                                o.push((s, if last == "index" { v } else { some(v) }));
                            }
                            if let Some(s) = n {
                                if last == "index" {
                                    self.panic(ir, "arguments that are not there are used", &s, site);
                                } else {
                                    o.push((s, none()));
                                }
                            }
                            return B::Outs(o);
                        }
                    }
                    _ => (),
                }
            }
            "split_first" if gt == ARGV => {
                if let Val::G(G { x, .. }) = v0 {
                    let (y, n) = self.has_arg(st, x as i128);
                    let mut o = vec![];
                    if let Some(mut s) = y {
                        if x <= 1 {
                            let v = self.arg(&mut s, x as u8, site);
                            o.push((s, some(agg(0, vec![refk(v), cg(ARGV, 0, x + 1)]))));
                        } else {
                            return B::Unknown(format!("arguments are taken apart in {}", site.func));
                        }
                    }
                    if let Some(s) = n {
                        o.push((s, none()));
                    }
                    return B::Outs(o);
                }
            }
            "push" | "append" | "extend" | "push_back" | "extend_from_slice" if d.contains("Vec") || d.contains("Extend") => {
                let mut s = st.clone();
                let v = st.load_all(&a[1]);
                if let Some(p) = st.last_ptr(&a[0]) {
                    let cur = st.read_ptr(&p);
                    let is = |v: &Val| matches!(v, Val::G(G { t: PATH | ARG, .. }));
                    if last == "push" && is(&v) && matches!(cur, Val::List(_) | Val::G(G { t: LIST, .. })) {
                        let mut set = BTreeSet::new();
                        if let Some(id) = self.path(&mut s, &v, site) {
                            self.queue(&mut s, id, &mut set);
                            if self.put(&mut s, &p, set, site) {
                                return one(s, unit());
                            }
                        }
                    }
                    let coll = match &v {
                        Val::List(l) | Val::ListIter(l) => l.iter().any(|x| is(&st.load_all(x))),
                        Val::G(G { t: LIST, .. }) => true,
                        Val::G(G { t: ITER, id, .. }) => matches!(st.node_opt(*id), Some(CN::Iter { kind: 1, .. })),
                        _ => false,
                    };
                    if last != "push" && coll {
                        if let Some(set) = self.take(&mut s, &v, site) {
                            if last == "append" {
                                if let (Some(q), Val::List(_)) = (st.last_ptr(&a[1]), &v) {
                                    s.write_ptr(&q, Val::List(Rc::new(vec![])));
                                }
                            }
                            if self.put(&mut s, &p, set, site) {
                                return one(s, unit());
                            }
                        }
                    }
                    if last == "append" && matches!(cur, Val::G(G { t: LIST, .. })) && matches!(&v, Val::List(l) if l.is_empty()) {
                        return one(s, unit());
                    }
                }
            }
            "pop" if gt == LIST => {
                if let Val::G(G { id, .. }) = v0 {
                    if let Some(CN::List { set, .. }) = st.node_opt(id).cloned() {
                        let mut o = vec![];
                        for t in &set {
                            let mut s = st.clone();
                            let i = self.new_item(&mut s, *t);
                            o.push((s, some(cg(PATH, i, 0))));
                        }
                        let mut s = st.clone();
                        s.mem.insert(id, Obj::C(CN::List { set: BTreeSet::new(), owes: false }));
                        o.push((s, none()));
                        return B::Outs(o);
                    }
                }
            }
            "add" | "add_assign" | "push_str" => {
                if d.contains("Add") || d.contains("String") {
                    let y = st.load_all(&a[1]);
                    if let Some(v) = self.cat(&v0, &y) {
                        if last == "add" {
                            return one(st.clone(), v);
                        }
                        if let Some(p) = st.last_ptr(&a[0]) {
                            let mut s = st.clone();
                            s.write_ptr(&p, v);
                            return one(s, unit());
                        }
                    }
                }
            }
            "push" if gt == OUT => {
                if let (Some(p), Val::G(G { id, x, .. })) = (st.last_ptr(&a[0]), &v0) {
                    let mut s = st.clone();
                    let nl = a[1] == Val::Int(10);
                    s.write_ptr(&p, cg(OUT, *id, if nl && *x == 0 { 1 } else { 2 }));
                    return one(s, unit());
                }
            }
            "format" if d == "std::fmt::format" => {
                if let Val::Agg(_, f) = &v0 {
                    if f.iter().any(|v| matches!(v, Val::G(G { t: OUT | SRC, .. }))) {
                        let mut r = Val::Str(Rc::from(""));
                        for v in f.iter() {
                            r = self.cat(&r, v).unwrap_or(Val::Any);
                        }
                        return one(st.clone(), r);
                    }
                }
            }
            "as_bytes" | "into_bytes" | "as_mut_str" | "into_boxed_str" | "leak" if matches!(gt, OUT | SRC) => return one(st.clone(), v0),
            "trim" | "trim_end" | "trim_start" | "trim_end_matches" | "trim_start_matches" | "replace" | "to_lowercase" | "to_uppercase" | "repeat" | "strip_suffix" | "lines" if matches!(gt, OUT | SRC) => {
                if let Val::G(G { t, id, .. }) = v0 {
                    if last != "lines" && last != "strip_suffix" {
                        return one(st.clone(), cg(t, id, 2));
                    }
                }
            }
            "from" if c.dargs.first().is_some_and(|t| ir.types[*t].s == "std::process::ExitCode") => return one(st.clone(), a[0].clone()),
            _ => (),
        }
        B::No
    }
    fn bin(&mut self, _ir: &Ir, op: &str, x: &Val, y: &Val, st: S, ovf: bool, site: &Site) -> Outs<Self> {
        if ovf {
            if let (Val::G(G { t: NARGS, x, .. }), Val::Int(k), "Sub" | "SubWithOverflow") = (x, y, op) {
                return self.has_arg(&st, *x as i128 + k - 1).0.map(|s| (s, agg(0, vec![cg(NARGS, 0, *x + *k as i32), Val::Int(0)]))).into_iter().collect();
            }
            return vec![(st, agg(0, vec![Val::Top, Val::Int(0)]))];
        }
        let neg = |o: Outs<Self>| -> Outs<Self> {
            o.into_iter()
                .map(|(s, v)| {
                    let v = if let (Val::Int(i), "Ne") = (&v, op) { b(*i == 0) } else { v };
                    (s, v)
                })
                .collect()
        };
        match (x, y) {
            (Val::G(G { t: NARGS, x: o, .. }), Val::Int(k)) => self.nargs(&st, op, k + *o as i128),
            (Val::Int(k), Val::G(G { t: NARGS, x: o, .. })) => {
                let op = match op {
                    "Lt" => "Gt",
                    "Gt" => "Lt",
                    "Le" => "Ge",
                    "Ge" => "Le",
                    o => o,
                };
                self.nargs(&st, op, k + *o as i128)
            }
            _ if op != "Eq" && op != "Ne" => vec![(st, Val::Top)],
            (Val::G(G { t: ARG, .. }), Val::Str(s)) | (Val::Str(s), Val::G(G { t: ARG, .. })) => {
                let i = CLASSES.iter().position(|c| *c == &**s);
                match i {
                    Some(i) => {
                        let (y, n) = self.class(&st, 1 << i);
                        neg(y.into_iter().map(|s| (s, b(true))).chain(n.into_iter().map(|s| (s, b(false)))).collect())
                    }
                    None => {
                        let (y, _) = self.class(&st, if s.starts_with('-') { 1 << 5 } else { 1 << 6 });
                        neg(y.into_iter().map(|s| (s, b(true))).chain([(st, b(false))]).collect())
                    }
                }
            }
            (Val::G(G { t: EXT, id, .. }), Val::Str(s)) | (Val::Str(s), Val::G(G { t: EXT, id, .. })) => {
                if let Val::G(G { t: EXT, x: 1 | 2, .. }) = if matches!(x, Val::Str(_)) { y } else { x } {
                    return if s.eq_ignore_ascii_case("mo") { neg(self.nocase(&st, *id)) } else { neg(vec![(st, b(false))]) };
                }
                if &**s == "mo" {
                    let known = self.item(&st, *id).and_then(|i| i.t.mo);
                    neg(self.split(&st, *id, known, |i, x| i.t.mo = Some(x)))
                } else {
                    let mut y = st.clone();
                    self.set(&mut y, *id, |i| i.t.mo = Some(false));
                    let known = self.item(&st, *id).and_then(|i| i.t.mo);
                    let mut o = vec![(st, b(false))];
                    if known != Some(true) {
                        o.push((y, b(true)));
                    }
                    neg(o)
                }
            }
            (Val::G(G { t: OUT, id: i, x: m, .. }), Val::G(G { t: SRC, id: j, x: n, .. })) | (Val::G(G { t: SRC, id: j, x: n, .. }), Val::G(G { t: OUT, id: i, x: m, .. })) => {
                self.obligations += 1;
                if i == j && *m == 1 && *n == 0 {
                    let known = self.item(&st, *i).and_then(|i| i.same);
                    neg(self.split(&st, *i, known, |i, x| i.same = Some(x)))
                } else {
                    if st.g.a1 == CHECK {
                        self.bad(&st, &["C09"], "compare-text", site, "the text that is compared is not the one that would be written, or not the contents of the file");
                        return vec![];
                    }
                    vec![(st, Val::Any)]
                }
            }
            (Val::G(G { t: PATH, id: i, .. }), Val::G(G { t: PATH, id: j, .. })) if i == j => neg(vec![(st, b(true))]),
            (Val::G(G { t: PATH | NAME | ARGX, .. }), Val::Str(_)) | (Val::Str(_), Val::G(G { t: PATH | NAME | ARGX, .. })) => vec![(st, Val::Any)],
            (Val::G(G { t: PATH | ARG | NAME | FOREIGN | ARGX, .. }), Val::G(G { t: PATH | ARG | NAME | FOREIGN | ARGX, .. })) => vec![(st, Val::Any)],
            _ => vec![(st, Val::Top)],
        }
    }
    fn meta(&mut self, g: &G, _st: &S) -> Option<Val> {
        (g.t == ARGV).then(|| cg(NARGS, 0, g.x))
    }
    fn rest(&mut self, g: &G, from: i64, _st: &S) -> Option<Val> {
        (g.t == ARGV).then(|| cg(ARGV, 0, g.x + from as i32))
    }
    fn field(&mut self, g: &G, i: u32, _st: &S) -> Option<Val> {
        match (g.t, g.x as i64 + i as i64) {
            (ARGV, 0) => Some(cg(PROG, 0, 0)),
            (ARGV, 1) => Some(cg(ARG, 0, 1)),
            _ => None,
        }
    }
    fn switch(&mut self, _ir: &Ir, gv: &G, t: &[i128], st: &S) -> Option<Vec<(S, usize)>> {
        if gv.t != NARGS {
            return None;
        }
        let mut out = vec![];
        let mut rest = vec![st.clone()];
        for (i, k) in t.iter().enumerate() {
            let mut next = vec![];
            for r in rest {
                for (s, v) in self.nargs(&r, "Eq", k + gv.x as i128) {
                    if v == Val::Int(1) {
                        out.push((s, i))
                    } else {
                        next.push(s)
                    }
                }
            }
            rest = next;
        }
        out.extend(rest.into_iter().map(|s| (s, t.len())));
        Some(out)
    }
    fn gc(&mut self, st: &mut S, _o: &HashSet<Id>, reach: &HashSet<Id>, site: &Site) {
        let lost: Vec<CN> = st.mem.iter().filter(|(i, _)| !reach.contains(i)).filter_map(|(_, o)| if let Obj::C(n) = o { Some(n.clone()) } else { None }).collect();
        if st.taint {
            return;
        }
        for n in lost {
            match n {
                CN::Item(i) => {
                    let f = self.judge(st, &i, site);
                    st.g.failed |= f;
                }
                CN::List { owes: true, .. } => self.bad(st, &["C08", "C10"], "files-lost", site, "files that were found are dropped without being processed"),
                CN::Iter { kind: 1, done: false, .. } => self.bad(st, &["C08", "C10"], "loop-left", site, "the processing of the files may stop before the last one"),
                CN::Iter { kind: 0, done: false, open: true, .. } if st.g.start != 0 => self.bad(st, &["C08"], "loop-left", site, "the processing of the given paths may stop before the last one"),
                _ => (),
            }
        }
    }
    fn enter(&mut self, _ir: &Ir, _f: usize, st: &S, map: &HashMap<Id, Id>, _o: &HashSet<Id>) -> H {
        let mut g = st.g.clone();
        g.rename(&|i| map.get(&i).cloned());
        g.outer |= st.mem.iter().any(|(i, o)| {
            !map.contains_key(i)
                && match o {
                    Obj::C(CN::List { owes, .. }) => *owes,
                    Obj::C(CN::Iter { kind, open, done, .. }) => *open && !*done && (*kind != 0 || st.g.start != 0),
                    _ => false,
                }
        });
        g
    }
    fn leave(&mut self, _ir: &Ir, _f: usize, st: &mut S, exit: H, _shared: &HashSet<Id>, _site: &Site) {
        let o = st.g.outer;
        st.g = exit;
        st.g.outer = o;
    }
    /// lists of plain values are followed up to six elements
    fn widen(&mut self, _ir: &Ir, _f: usize, _b: usize, st: &mut S) {
        fn cut(v: &Val) -> Option<Val> {
            match v {
                Val::List(l) if l.len() > 6 && l.iter().all(|x| !matches!(x, Val::G(_) | Val::Ref(_) | Val::Agg(..))) => Some(Val::Top),
                Val::Str(s) if s.len() > 2000 => Some(Val::Top),
                Val::Agg(n, f) => {
                    let c: Vec<Option<Val>> = f.iter().map(cut).collect();
                    c.iter().any(|x| x.is_some()).then(|| Val::Agg(*n, Rc::new(c.into_iter().zip(f.iter()).map(|(a, b)| a.unwrap_or_else(|| b.clone())).collect())))
                }
                _ => None,
            }
        }
        for o in st.mem.values_mut() {
            if let Obj::V(v) = o {
                if let Some(n) = cut(v) {
                    *v = n
                }
            }
        }
    }
    fn root_exit(&mut self, _ir: &Ir, st: &S, site: &Site) {
        let mut v = st.read_at(0, &[]);
        while let Val::Agg(_, f) = &v {
            match f.first() {
                Some(x) => v = x.clone(),
                None => v = Val::Int(0),
            }
        }
        if matches!(v, Val::Un) {
            v = Val::Int(0);
        }
        self.exit(st, &v, site);
    }
    fn panic(&mut self, _ir: &Ir, what: &str, st: &S, site: &Site) {
        self.obligations += 1;
        self.bad(st, &["C08"], "panic", site, &format!("the program can panic: {what}"));
    }
}

pub fn run(ir: &Ir) -> serde_json::Value {
    let kind = ir.adt("SyntaxKind").and_then(|t| ir.types[t].v.iter().find(|v| v.name == "StoredDefinition").map(|v| v.d)).unwrap_or(-1);
    let parsed = ir.adt("ParsedModelica").map(|t| ir.types[t].v[0].f.iter().map(|f| f.0.clone()).collect()).unwrap_or_default();
    let mut e = Eng::new(ir, Cli { rep: Report::default(), obligations: 0, exits: 0, judged: 0, writes: BTreeSet::new(), kind, parsed });
    e.cap = 3;
    let mut st: S = State::new();
    st.g = H { lo: 1, hi: 255, a1: 0x7f, ..Default::default() };
    let main = ir.fns.iter().position(|f| f.path == "main" && f.krate == "mofmt");
    if let Some(m) = main {
        e.run(vec![(m, st)]);
    } else {
        e.undecide("no function main".into());
    }
    if e.debug {
        e.profile();
        if let Ok(n) = std::env::var("ENGINE_SHOW") {
            e.show_entries(&n, 20);
        }
    }
    let local: BTreeSet<String> = e.sums.iter().map(|s| &ir.fns[s.f]).filter(|f| f.krate == "mofmt").map(|f| f.path.clone()).collect();
    let mut und: BTreeMap<String, usize> = e.undecided.clone();
    for (f, n) in &e.cut {
        und.insert(format!("paths of {f} that depend on an unknown value"), *n);
    }
    for u in &e.c.rep.und {
        und.insert(u.clone(), 1);
    }
    serde_json::json!({
        "client": "cli",
        "findings": e.c.rep.json(),
        "undecided": und,
        "stats": {"functions": local.len(), "summaries": e.sums.len(), "blocks": e.blocks_seen.len(), "call_edges": e.calls.len(), "steps": e.steps,
            "obligations": e.c.obligations, "program_ends": e.c.exits, "paths_judged": e.c.judged, "write_sites": e.c.writes.len(), "control_points": e.nodes.len()},
        "function_names": local,
    })
}
