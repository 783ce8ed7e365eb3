//! Path exploration and proof obligations.
use crate::arena::*;
use crate::rat::Rat;
use crate::smt::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

/// Panic payloads used for control flow.
pub struct Infeasible;
pub struct Abort(pub String);

#[derive(Clone, Debug)]
pub struct Frac {
    n: Id,
    d: Vec<(Id, u32)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    InProgress,
    Proven,
    Unproven,
}

#[derive(Clone, Debug)]
pub struct Goal {
    pub label: String,
    pub b: Bid,
    pub eq: Option<(Id, Id)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Native {
    Pass(usize),
    AssumeFailed,
    Fail { label: String, detail: String },
    Panic(String),
    Inconclusive(String),
}

pub type Model = BTreeMap<String, f64>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub label: String,
    pub detail: String,
    pub model: Model,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: usize,
    pub infeasible: usize,
    pub branches: usize,
    pub goals: usize,
    pub discharged: usize,
    pub queries: usize,
    pub solver_s: f64,
    pub witnesses: usize,
    pub witness_mismatch: usize,
    pub nodes: usize,
    pub cross: usize,
}

#[derive(Default, Clone, Debug)]
pub struct Outcome {
    pub stats: Stats,
    pub violation: Option<Violation>,
    pub errors: Vec<String>,
    pub sample: Option<Model>,
    pub labels: Vec<String>,
    pub notes: Vec<String>,
}

#[derive(Clone)]
pub struct Config {
    pub goal_ms: u64,
    pub branch_ms: u64,
    pub max_paths: usize,
    pub deadline: Instant,
    pub cross_check: bool,
    pub seed: u64,
}

pub struct Ctx {
    pub ar: Arena,
    pub pc: Vec<Bid>,
    prefix: Vec<bool>,
    decisions: Vec<(bool, bool)>, // (taken, alternative pending)
    pending: Vec<Goal>,
    lemma_ids: HashSet<Bid>,
    status: HashMap<Id, Status>,
    fr_memo: HashMap<Id, Frac>,
    pub fresh: u32,
    /// Random draws on this path: kind, value, range.
    pub draws: Vec<(&'static str, Id, Option<(Id, Id)>)>,
    pub out: Outcome,
    pub cfg: Config,
    solver: Solver,
    native: Option<fn(&Model) -> Native>,
    proven_any: bool,
    /// Arithmetic is uninterpreted: only what holds bit for bit can be shown.
    pub opaque: bool,
    /// Divisions and remainders executed on this path.
    pub divisions: usize,
}

thread_local! {
    pub static CTX: RefCell<Option<Ctx>> = RefCell::new(None);
}

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| {
        let mut g = c.borrow_mut();
        f(g.as_mut().expect("symx-internal: no context"))
    })
}

fn mixing(mut x: u64) -> u64 {
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51afd7ed558ccd);
    x ^= x >> 33;
    x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
    x ^ (x >> 33)
}

pub fn name_hash(s: &str) -> u64 {
    let mut h = 1469598103934665603u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(1099511628211);
    }
    mixing(h)
}

impl Ctx {
    fn new(cfg: Config, native: Option<fn(&Model) -> Native>) -> Self {
        Ctx {
            ar: Arena::default(),
            pc: vec![],
            prefix: vec![],
            decisions: vec![],
            pending: vec![],
            lemma_ids: HashSet::new(),
            status: HashMap::new(),
            fr_memo: HashMap::new(),
            fresh: 0,
            draws: vec![],
            out: Outcome::default(),
            cfg,
            solver: Solver::new(Kind::Z3New),
            native,
            proven_any: false,
            opaque: false,
            divisions: 0,
        }
    }

    fn reset_path(&mut self, prefix: Vec<bool>) {
        self.out.stats.nodes = self.out.stats.nodes.max(self.ar.nodes.len());
        self.ar = Arena::default();
        self.pc.clear();
        self.prefix = prefix;
        self.decisions.clear();
        self.pending.clear();
        self.lemma_ids.clear();
        self.status.clear();
        self.fr_memo.clear();
        self.fresh = 0;
        self.opaque = false;
        self.divisions = 0;
        self.draws.clear();
        self.proven_any = false;
    }

    fn ask(&mut self, body: &str, ms: u64, tactic: Option<&str>, vals: &[String]) -> (Ans, Vec<String>) {
        let left = self.cfg.deadline.saturating_duration_since(Instant::now()).as_millis() as u64;
        if left < 50 {
            return (Ans::Unknown, vec![]);
        }
        let t = Instant::now();
        let r = self.solver.check(body, ms.min(left), tactic, vals);
        if t.elapsed() > Duration::from_millis(200) && std::env::var("SYMX_DEBUG").is_ok() {
            eprintln!("  query of {} bytes: limit {} took {:?} {:?}", body.len(), ms, t.elapsed(), r.0);
        }
        self.out.stats.queries += 1;
        self.out.stats.solver_s += t.elapsed().as_secs_f64();
        r
    }
    fn ask_other(&mut self, kind: Kind, body: &str, ms: u64, vals: &[String]) -> (Ans, Vec<String>) {
        let left = self.cfg.deadline.saturating_duration_since(Instant::now()).as_millis() as u64;
        if left < 50 {
            return (Ans::Unknown, vec![]);
        }
        let t = Instant::now();
        let mut s = Solver::new(kind);
        let r = s.check(body, ms.min(left), None, vals);
        self.out.stats.queries += 1;
        self.out.stats.solver_s += t.elapsed().as_secs_f64();
        r
    }

    // ---------- fractions ----------
    fn factors(&self, id: Id, out: &mut Vec<Id>) {
        match self.ar.node(id) {
            Node::Mul(a, b) => {
                self.factors(*a, out);
                self.factors(*b, out);
            }
            _ => out.push(id),
        }
    }
    fn prod(&mut self, v: &[Id]) -> Id {
        let mut p = self.ar.int(1);
        for &x in v {
            p = self.ar.mul(p, x);
        }
        p
    }
    fn pow_prod(&mut self, v: &[(Id, u32)]) -> Id {
        let mut p = self.ar.int(1);
        for &(x, k) in v {
            for _ in 0..k {
                p = self.ar.mul(p, x);
            }
        }
        p
    }
    fn lcm(a: &[(Id, u32)], b: &[(Id, u32)]) -> Vec<(Id, u32)> {
        let mut m: BTreeMap<Id, u32> = a.iter().cloned().collect();
        for &(x, k) in b {
            let e = m.entry(x).or_insert(0);
            *e = (*e).max(k);
        }
        m.into_iter().collect()
    }
    fn quot(l: &[(Id, u32)], d: &[(Id, u32)]) -> Vec<(Id, u32)> {
        let m: HashMap<Id, u32> = d.iter().cloned().collect();
        l.iter()
            .map(|&(x, k)| (x, k - m.get(&x).cloned().unwrap_or(0)))
            .filter(|x| x.1 > 0)
            .collect()
    }
    /// n / d with factors common to the top-level product of n cancelled (d is proven non-zero).
    fn norm_frac(&mut self, n: Id, d: Vec<(Id, u32)>) -> Frac {
        if d.is_empty() {
            return Frac { n, d };
        }
        let (neg, base) = match *self.ar.node(n) {
            Node::Neg(x) => (true, x),
            _ => (false, n),
        };
        let mut f = vec![];
        self.factors(base, &mut f);
        let mut m: BTreeMap<Id, u32> = d.into_iter().collect();
        let mut rest = vec![];
        let mut changed = false;
        for x in f {
            match m.get_mut(&x) {
                Some(k) if *k > 0 => {
                    *k -= 1;
                    changed = true;
                }
                _ => rest.push(x),
            }
        }
        let d: Vec<_> = m.into_iter().filter(|x| x.1 > 0).collect();
        if !changed {
            return Frac { n, d };
        }
        let mut p = self.prod(&rest);
        if neg {
            p = self.ar.neg(p);
        }
        Frac { n: p, d }
    }
    fn fr(&mut self, id: Id) -> Frac {
        if let Some(f) = self.fr_memo.get(&id) {
            return f.clone();
        }
        let r = match self.ar.node(id).clone() {
            Node::Const(_) | Node::Var(_) | Node::App(..) => Frac { n: id, d: vec![] },
            Node::Neg(a) => {
                let f = self.fr(a);
                Frac { n: self.ar.neg(f.n), d: f.d }
            }
            Node::Add(a, b) => {
                let (x, y) = (self.fr(a), self.fr(b));
                if x.d.is_empty() && y.d.is_empty() {
                    Frac { n: self.ar.add(x.n, y.n), d: vec![] }
                } else {
                    let l = Self::lcm(&x.d, &y.d);
                    let px = self.pow_prod(&Self::quot(&l, &x.d));
                    let py = self.pow_prod(&Self::quot(&l, &y.d));
                    let nx = self.ar.mul(x.n, px);
                    let ny = self.ar.mul(y.n, py);
                    Frac { n: self.ar.add(nx, ny), d: l }
                }
            }
            Node::Mul(a, b) => {
                let (x, y) = (self.fr(a), self.fr(b));
                if x.d.is_empty() && y.d.is_empty() {
                    Frac { n: self.ar.mul(x.n, y.n), d: vec![] }
                } else {
                    let fx = self.norm_frac(x.n, y.d);
                    let fy = self.norm_frac(y.n, x.d);
                    let mut m: BTreeMap<Id, u32> = fx.d.into_iter().collect();
                    for (v, k) in fy.d {
                        *m.entry(v).or_insert(0) += k;
                    }
                    Frac { n: self.ar.mul(fx.n, fy.n), d: m.into_iter().collect() }
                }
            }
            Node::Div(a, b) => {
                if self.status.get(&id) == Some(&Status::Proven) {
                    let (x, y) = (self.fr(a), self.fr(b));
                    let pd = self.pow_prod(&y.d);
                    let mut num = self.ar.mul(x.n, pd);
                    let mut f = vec![];
                    let (neg, base) = match *self.ar.node(y.n) {
                        Node::Neg(z) => (true, z),
                        _ => (false, y.n),
                    };
                    self.factors(base, &mut f);
                    let mut m: BTreeMap<Id, u32> = x.d.into_iter().collect();
                    for v in f {
                        if let Some(r) = self.ar.is_const(v) {
                            if let Some(q) = Rat::ONE.div(r) {
                                let q = self.ar.c(q);
                                num = self.ar.mul(num, q);
                                continue;
                            }
                        }
                        *m.entry(v).or_insert(0) += 1;
                    }
                    if neg {
                        num = self.ar.neg(num);
                    }
                    self.norm_frac(num, m.into_iter().collect())
                } else {
                    Frac { n: id, d: vec![] }
                }
            }
            Node::Ite(c, a, b) => {
                let (x, y) = (self.fr(a), self.fr(b));
                let l = Self::lcm(&x.d, &y.d);
                let px = self.pow_prod(&Self::quot(&l, &x.d));
                let py = self.pow_prod(&Self::quot(&l, &y.d));
                let nx = self.ar.mul(x.n, px);
                let ny = self.ar.mul(y.n, py);
                Frac { n: self.ar.ite(c, nx, ny), d: l }
            }
        };
        self.fr_memo.insert(id, r.clone());
        r
    }
    /// Syntactically non-negative.
    fn sos(&self, id: Id) -> bool {
        match self.ar.node(id) {
            Node::Const(r) => r.n >= 0,
            Node::Mul(a, b) => a == b || (self.sos(*a) && self.sos(*b)),
            Node::Add(a, b) => self.sos(*a) && self.sos(*b),
            Node::App(f, _) => *f == "sqrt",
            _ => false,
        }
    }
    /// Comparison with denominators cleared.
    fn cmp_poly(&mut self, op: Op, a: Id, b: Id) -> (Op, Id, Id) {
        let (x, y) = (self.fr(a), self.fr(b));
        if x.d.is_empty() && y.d.is_empty() {
            return (op, x.n, y.n);
        }
        let l = Self::lcm(&x.d, &y.d);
        let px = self.pow_prod(&Self::quot(&l, &x.d));
        let py = self.pow_prod(&Self::quot(&l, &y.d));
        let nx = self.ar.mul(x.n, px);
        let ny = self.ar.mul(y.n, py);
        if op == Op::Eq {
            return (op, nx, ny);
        }
        let sign: Vec<Id> = l.iter().filter(|(f, k)| k % 2 == 1 && !self.sos(*f)).map(|x| x.0).collect();
        if sign.is_empty() {
            return (op, nx, ny);
        }
        let s = self.prod(&sign);
        let d = self.ar.sub(nx, ny);
        let e = self.ar.mul(d, s);
        let z = self.ar.int(0);
        (op, e, z)
    }

    // ---------- cones ----------
    fn cone_b(&self, b: Bid, ids: &mut BTreeSet<Id>, bs: &mut BTreeSet<Bid>) {
        if !bs.insert(b) {
            return;
        }
        match self.ar.bnode(b) {
            BNode::True | BNode::False => {}
            BNode::Cmp(_, x, y) => {
                let (x, y) = (*x, *y);
                self.cone(x, ids, bs);
                self.cone(y, ids, bs);
            }
            BNode::Not(x) => self.cone_b(*x, ids, bs),
            BNode::And(v) | BNode::Or(v) => {
                for &x in v {
                    self.cone_b(x, ids, bs)
                }
            }
        }
    }
    fn cone(&self, id: Id, ids: &mut BTreeSet<Id>, bs: &mut BTreeSet<Bid>) {
        if !ids.insert(id) {
            return;
        }
        match self.ar.node(id) {
            Node::Const(_) | Node::Var(_) => {}
            Node::Neg(a) => self.cone(*a, ids, bs),
            Node::Add(a, b) | Node::Mul(a, b) | Node::Div(a, b) => {
                self.cone(*a, ids, bs);
                self.cone(*b, ids, bs);
            }
            Node::Ite(c, a, b) => {
                self.cone_b(*c, ids, bs);
                self.cone(*a, ids, bs);
                self.cone(*b, ids, bs);
            }
            Node::App(_, v) => {
                for &x in v {
                    self.cone(x, ids, bs)
                }
            }
        }
    }

    /// Decide, for every division and square root in the cone, whether it is well defined
    /// under the path condition.
    fn prepare(&mut self, roots: &[Bid]) {
        let mut ids = BTreeSet::new();
        let mut bs = BTreeSet::new();
        for &r in roots {
            self.cone_b(r, &mut ids, &mut bs);
        }
        let todo: Vec<Id> = ids
            .into_iter()
            .filter(|i| match self.ar.node(*i) {
                Node::Div(..) => true,
                Node::App(f, _) => *f == "sqrt",
                _ => false,
            })
            .filter(|i| !matches!(self.status.get(i), Some(Status::Proven) | Some(Status::InProgress)))
            .collect();
        for i in todo {
            // memoised failure is retried only when the path condition has grown
            if let Some(Status::Unproven) = self.status.get(&i) {
                let key = (i, self.pc.len());
                if UNPROVEN_AT.with(|u| u.borrow().contains(&key)) {
                    continue;
                }
            }
            self.status.insert(i, Status::InProgress);
            let goal = match self.ar.node(i).clone() {
                Node::Div(_, b) => {
                    let f = self.fr(b);
                    let z = self.ar.int(0);
                    let mut fs = vec![];
                    self.factors(f.n, &mut fs);
                    let mut gs = vec![];
                    for x in fs {
                        let e = self.ar.cmp(Op::Eq, x, z);
                        gs.push(self.ar.not(e));
                    }
                    gs
                }
                Node::App(_, v) => {
                    let f = self.fr(v[0]);
                    let odd: Vec<Id> = f.d.iter().filter(|x| x.1 % 2 == 1).map(|x| x.0).collect();
                    if self.sos(f.n) && odd.iter().all(|x| self.sos(*x)) {
                        vec![]
                    } else {
                        let z = self.ar.int(0);
                        vec![self.ar.cmp(Op::Le, z, v[0])]
                    }
                }
                _ => unreachable!(),
            };
            let mut ok = true;
            for g in goal {
                if *self.ar.bnode(g) == BNode::True {
                    continue;
                }
                if *self.ar.bnode(g) == BNode::False || !self.quick_prove(g) {
                    ok = false;
                    break;
                }
                self.lemma_ids.insert(g);
            }
            if ok {
                self.status.insert(i, Status::Proven);
                self.fr_memo.clear();
            } else {
                self.status.insert(i, Status::Unproven);
                let key = (i, self.pc.len());
                UNPROVEN_AT.with(|u| u.borrow_mut().insert(key));
            }
        }
    }

    fn quick_prove(&mut self, g: Bid) -> bool {
        if self.pc.contains(&g) || self.lemma_ids.contains(&g) {
            return true;
        }
        let ng = self.ar.not(g);
        let facts = self.pc.clone();
        // goal cone only, then relevant facts, then all of them
        let mut roots = facts.clone();
        roots.push(g);
        self.prepare(&roots);
        let rel = self.relevant(&facts, g);
        for (fs, ms) in [(rel, 1500u64), (facts, 2500)] {
            let body = self.emit(&fs, &[ng], false).0;
            if self.ask(&body, ms, None, &[]).0 == Ans::Unsat {
                return true;
            }
        }
        false
    }

    /// Facts sharing input variables (transitively within facts of few variables) with the goal.
    fn relevant(&self, facts: &[Bid], g: Bid) -> Vec<Bid> {
        let vars = |b: Bid| -> BTreeSet<Id> {
            let mut ids = BTreeSet::new();
            let mut bs = BTreeSet::new();
            self.cone_b(b, &mut ids, &mut bs);
            ids.into_iter().filter(|i| matches!(self.ar.node(*i), Node::Var(_))).collect()
        };
        let gv = vars(g);
        facts.iter().cloned().filter(|f| vars(*f).is_subset(&gv)).collect()
    }

    // ---------- emission ----------
    /// Asserts `asserts` and all `facts`, with the axioms of every application in the cone.
    /// Returns the script and the input variables occurring in it.
    fn emit(&mut self, facts: &[Bid], asserts: &[Bid], ack: bool) -> (String, Vec<String>, bool) {
        let mut e = Emit::default();
        for &f in facts.iter().chain(asserts) {
            let s = self.em_b(f, &mut e);
            e.asserts.push(s);
        }
        // axioms, to a fixpoint
        let mut done: HashSet<Id> = HashSet::new();
        loop {
            let todo: Vec<Id> = e.atoms.iter().cloned().filter(|x| !done.contains(x)).collect();
            if todo.is_empty() {
                break;
            }
            for id in todo {
                done.insert(id);
                self.axioms(id, &mut e);
            }
        }
        let mut has_ack = false;
        let mut by: BTreeMap<&'static str, Vec<(Id, Vec<Id>)>> = BTreeMap::new();
        for &id in &e.atoms.clone() {
            if let Node::App(f, v) = self.ar.node(id).clone() {
                if !v.is_empty() {
                    by.entry(f).or_default().push((id, v));
                }
            }
        }
        for (_, l) in by {
            for i in 0..l.len() {
                for j in 0..i {
                    if l[i].1.len() != l[j].1.len() {
                        continue;
                    }
                    has_ack = true;
                    if !ack || (l.len() > 14 && i > j + 3) {
                        continue;
                    }
                    let mut eqs = vec![];
                    for (x, y) in l[i].1.iter().zip(&l[j].1) {
                        eqs.push(self.ar.cmp(Op::Eq, *x, *y));
                    }
                    let pre = self.ar.and(eqs);
                    if *self.ar.bnode(pre) == BNode::False {
                        continue;
                    }
                    let p = self.em_b(pre, &mut e);
                    let s = format!("(=> {} (= a{} a{}))", p, l[i].0, l[j].0);
                    e.asserts.push(s);
                }
            }
        }
        let mut t = String::new();
        let mut vars = vec![];
        for &v in &e.vars {
            t.push_str(&format!("(declare-const v{} Real)\n", v));
            vars.push(format!("v{}", v));
        }
        for &a in &e.atoms {
            t.push_str(&format!("(declare-const a{} Real)\n", a));
        }
        for d in &e.defs {
            t.push_str(d);
            t.push('\n');
        }
        for a in &e.asserts {
            t.push_str(&format!("(assert {})\n", a));
        }
        (t, vars, has_ack)
    }
    fn axioms(&mut self, id: Id, e: &mut Emit) {
        match self.ar.node(id).clone() {
            Node::Div(a, b) => {
                let (x, y) = (self.fr(a), self.fr(b));
                // unproven division: arbitrary where the divisor vanishes
                let yd = self.pow_prod(&y.d);
                let xd = self.pow_prod(&x.d);
                let l = self.ar.mul(y.n, xd);
                let r = self.ar.mul(x.n, yd);
                let (sy, sl, sr) = (self.em(y.n, e), self.em(l, e), self.em(r, e));
                e.asserts.push(format!("(=> (not (= {} 0.0)) (= (* a{} {}) {}))", sy, id, sl, sr));
            }
            Node::App("sqrt", v) => {
                let f = self.fr(v[0]);
                let d = self.pow_prod(&f.d);
                let (sn, sd) = (self.em(f.n, e), self.em(d, e));
                let body = if self.ar.is_one(d) {
                    format!("(and (>= a{0} 0.0) (= (* a{0} a{0}) {1}))", id, sn)
                } else {
                    format!("(and (>= a{0} 0.0) (= (* a{0} a{0} {2}) {1}))", id, sn, sd)
                };
                if self.status.get(&id) == Some(&Status::Proven) {
                    e.asserts.push(body);
                } else {
                    let z = self.ar.int(0);
                    let c = self.ar.cmp(Op::Le, z, v[0]);
                    let s = self.em_b(c, e);
                    e.asserts.push(format!("(=> {} {})", s, body));
                }
            }
            Node::App("cosb", v) | Node::App("sinb", v) => {
                let c = self.ar.app("cosb", v.clone());
                let s = self.ar.app("sinb", v.clone());
                self.em(c, e);
                self.em(s, e);
                if e.trig.insert(c) {
                    e.asserts.push(format!("(= (+ (* a{0} a{0}) (* a{1} a{1})) 1.0)", c, s));
                    let q = self.ar.is_const(v[1]).unwrap();
                    let atan = match self.ar.node(v[0]).clone() {
                        Node::App("atan2", w) => Some(w),
                        _ => None,
                    };
                    if let Some(w) = atan {
                        if q.is_one() {
                            let (y, x) = (w[0], w[1]);
                            let (xx, yy) = (self.ar.mul(x, x), self.ar.mul(y, y));
                            let n = self.ar.add(xx, yy);
                            let r = self.ar.sqrt(n);
                            if let Node::App(..) = self.ar.node(r) {
                                self.status.insert(r, Status::Proven);
                            }
                            let rc = self.ar.mul(r, c);
                            let rs = self.ar.mul(r, s);
                            let z = self.ar.int(0);
                            for (l, rr) in [(rc, x), (rs, y)] {
                                let b = self.ar.cmp(Op::Eq, l, rr);
                                let t = self.em_b(b, e);
                                e.asserts.push(t);
                            }
                            let rz = self.ar.cmp(Op::Eq, r, z);
                            let t = self.em_b(rz, e);
                            e.asserts.push(format!("(=> {} (and (= a{} 1.0) (= a{} 0.0)))", t, c, s));
                        } else if q == Rat::int(2) {
                            e.asserts.push(format!("(>= a{} 0.0)", c));
                            e.asserts.push(format!("(=> (= a{} 0.0) (= a{} 1.0))", c, s));
                        }
                    }
                    if q == Rat::int(2) {
                        let one = self.ar.int(1);
                        let c1 = self.ar.app("cosb", vec![v[0], one]);
                        let s1 = self.ar.app("sinb", vec![v[0], one]);
                        self.em(c1, e);
                        self.em(s1, e);
                        e.asserts.push(format!("(= a{} (- (* 2.0 a{1} a{1}) 1.0))", c1, c));
                        e.asserts.push(format!("(= a{} (* 2.0 a{} a{}))", s1, c, s));
                    }
                }
            }
            Node::App("atan2", v) => {
                let pi = self.ar.pi();
                let p = self.em(pi, e);
                e.asserts.push(format!("(and (< (- {1}) a{0}) (<= a{0} {1}))", id, p));
                let z = self.ar.int(0);
                let (y, x) = (v[0], v[1]);
                let yp = self.ar.cmp(Op::Lt, z, y);
                let yn = self.ar.cmp(Op::Lt, y, z);
                let y0 = self.ar.cmp(Op::Eq, y, z);
                let x0 = self.ar.cmp(Op::Le, z, x);
                let (yp, yn, y0, x0) = (self.em_b(yp, e), self.em_b(yn, e), self.em_b(y0, e), self.em_b(x0, e));
                e.asserts.push(format!("(=> {} (and (< 0.0 a{1}) (< a{1} {2})))", yp, id, p));
                e.asserts.push(format!("(=> {} (< a{} 0.0))", yn, id));
                e.asserts.push(format!("(=> (and {} {}) (= a{} 0.0))", y0, x0, id));
                e.asserts.push(format!("(=> (and {} (not {})) (= a{} {}))", y0, x0, id, p));
            }
            Node::App("pi", _) => {
                e.asserts.push(format!("(and (< 3.14159265 a{0}) (< a{0} 3.14159266))", id));
            }
            Node::App("minpos", _) => {
                e.asserts.push(format!("(and (< 0.0 a{0}) (< a{0} 0.0000000000000000000001))", id));
            }
            _ => {}
        }
    }
    fn em(&mut self, id: Id, e: &mut Emit) -> String {
        if let Some(s) = e.memo.get(&id) {
            return s.clone();
        }
        let s = match self.ar.node(id).clone() {
            Node::Const(r) => r.smt(),
            Node::Var(v) => {
                e.vars.insert(v);
                format!("v{}", v)
            }
            Node::App(..) => {
                e.atoms.insert(id);
                format!("a{}", id)
            }
            Node::Div(..) => {
                if self.status.get(&id) == Some(&Status::Proven) {
                    // reached only through atoms' raw arguments
                    let f = self.fr(id);
                    let d = self.pow_prod(&f.d);
                    let (n, d) = (self.em(f.n, e), self.em(d, e));
                    format!("(/ {} {})", n, d)
                } else {
                    e.atoms.insert(id);
                    format!("a{}", id)
                }
            }
            n => {
                let x = match n {
                    Node::Add(a, b) => {
                        let (a, b) = (self.em(a, e), self.em(b, e));
                        format!("(+ {} {})", a, b)
                    }
                    Node::Mul(a, b) => {
                        let (a, b) = (self.em(a, e), self.em(b, e));
                        format!("(* {} {})", a, b)
                    }
                    Node::Neg(a) => {
                        let a = self.em(a, e);
                        format!("(- {})", a)
                    }
                    Node::Ite(c, a, b) => {
                        let (c, a, b) = (self.em_b(c, e), self.em(a, e), self.em(b, e));
                        format!("(ite {} {} {})", c, a, b)
                    }
                    _ => unreachable!(),
                };
                let name = format!("t{}", id);
                e.defs.push(format!("(define-fun {} () Real {})", name, x));
                name
            }
        };
        e.memo.insert(id, s.clone());
        s
    }
    fn em_b(&mut self, b: Bid, e: &mut Emit) -> String {
        if let Some(s) = e.bmemo.get(&b) {
            return s.clone();
        }
        let s = match self.ar.bnode(b).clone() {
            BNode::True => "true".to_string(),
            BNode::False => "false".to_string(),
            BNode::Not(x) => {
                let x = self.em_b(x, e);
                format!("(not {})", x)
            }
            BNode::And(v) | BNode::Or(v) => {
                let op = if matches!(self.ar.bnode(b), BNode::And(_)) { "and" } else { "or" };
                let p: Vec<String> = v.iter().map(|x| self.em_b(*x, e)).collect();
                format!("({} {})", op, p.join(" "))
            }
            BNode::Cmp(op, x, y) => {
                let (op, x, y) = self.cmp_poly(op, x, y);
                let o = match op {
                    Op::Lt => "<",
                    Op::Le => "<=",
                    Op::Eq => "=",
                };
                let (x, y) = (self.em(x, e), self.em(y, e));
                format!("({} {} {})", o, x, y)
            }
        };
        e.bmemo.insert(b, s.clone());
        s
    }

    // ---------- branching ----------
    /// Whether the path may go on under `c`: anything but `unsat` counts as yes.
    fn feasible(&mut self, c: Bid) -> bool {
        let facts = self.pc.clone();
        let (body, vars, _) = self.emit(&facts, &[c], false);
        // with many variables: all but two at fixed values first, which is easy when satisfiable
        if vars.len() >= 8 {
            let mut rng = 0x9e37;
            for round in 0..4usize {
                let mut s = body.clone();
                for (i, v) in vars.iter().enumerate() {
                    rng = mixing(rng + i as u64 + 1);
                    if (i + 5 * round) % vars.len() < 2 {
                        continue;
                    }
                    let n = (rng >> 8) % 11 + 1;
                    let sign = if (rng >> 20) & 1 == 0 { format!("{}.0", n) } else { format!("(- {}.0)", n) };
                    s.push_str(&format!("(assert (= {} (/ {} 4.0)))\n", v, sign));
                }
                if self.ask(&s, 150, None, &[]).0 == Ans::Sat {
                    return true;
                }
            }
        }
        let ms = self.cfg.branch_ms;
        self.ask(&body, ms, None, &[]).0 != Ans::Unsat
    }

    pub fn decide(&mut self, c: Bid) -> Result<bool, Abort> {
        match self.ar.bnode(c) {
            BNode::True => return Ok(true),
            BNode::False => return Ok(false),
            _ => {}
        }
        let nc = self.ar.not(c);
        if self.pc.contains(&c) {
            return Ok(true);
        }
        if self.pc.contains(&nc) {
            return Ok(false);
        }
        let k = self.decisions.len();
        if k > 400 {
            return Err(Abort("more than 400 branch decisions on one path".into()));
        }
        let v = if k < self.prefix.len() {
            let v = self.prefix[k];
            // alternatives of replayed decisions are tracked by the caller
            self.decisions.push((v, false));
            v
        } else {
            self.out.stats.branches += 1;
            let mut roots = self.pc.clone();
            roots.push(c);
            self.prepare(&roots);
            let t = self.feasible(c);
            let f = !t || self.feasible(nc);
            let v = t;
            self.decisions.push((v, t && f));
            v
        };
        self.pc.push(if v { c } else { nc });
        Ok(v)
    }

    pub fn assume(&mut self, b: Bid) -> bool {
        match self.ar.bnode(b) {
            BNode::True => return true,
            BNode::False => return false,
            _ => {}
        }
        if !self.pending.is_empty() {
            self.flush();
        }
        if !self.pc.contains(&b) {
            self.pc.push(b);
        }
        true
    }

    pub fn prove(&mut self, g: Goal) {
        self.out.stats.goals += 1;
        if self.out.labels.len() < 4000 && !self.out.labels.contains(&g.label) {
            self.out.labels.push(g.label.clone());
        }
        self.pending.push(g);
    }

    /// Discharge the pending goals now and keep them as facts.
    pub fn lemma_flush(&mut self) {
        let gs: Vec<Bid> = self.pending.iter().map(|g| g.b).collect();
        let before = self.out.errors.len();
        self.flush();
        if self.out.violation.is_none() && self.out.errors.len() == before {
            for g in gs {
                if !self.pc.contains(&g) && *self.ar.bnode(g) != BNode::True {
                    self.pc.push(g);
                }
            }
        }
    }

    pub fn flush(&mut self) {
        let goals = std::mem::take(&mut self.pending);
        let mut hard = vec![];
        let mut easy = vec![];
        for g in goals {
            // goals whose two sides are one term, or that fold to true, go to the solver in one batch
            match self.ar.bnode(g.b) {
                BNode::True => easy.push(g),
                _ => hard.push(g),
            }
        }
        if !easy.is_empty() {
            // all sides identical terms: one query
            let mut body = String::from("(declare-sort U 0)\n");
            let mut parts = vec![];
            let mut seen = BTreeSet::new();
            for g in &easy {
                if let Some((a, b)) = g.eq {
                    for x in [a, b] {
                        if seen.insert(x) {
                            body.push_str(&format!("(declare-const n{} U)\n", x));
                        }
                    }
                    parts.push(format!("(not (= n{} n{}))", a, b));
                }
            }
            parts.push("false".into());
            body.push_str(&format!("(assert (or {}))\n", parts.join(" ")));
            let (a, _) = self.ask(&body, 20000, None, &[]);
            if a == Ans::Unsat {
                self.out.stats.discharged += easy.len();
            } else {
                self.out.errors.push("solver gave no answer on the batch of identical terms".into());
            }
        }
        if hard.is_empty() {
            return;
        }
        let mut roots = self.pc.clone();
        roots.extend(hard.iter().map(|g| g.b));
        self.prepare(&roots);
        // several goals: try them together first
        if hard.len() > 1 {
            let all = self.ar.and(hard.iter().map(|g| g.b).collect());
            let nall = self.ar.not(all);
            let body = self.emit(&[], &[nall], false).0;
            let (a, _) = self.ask(&body, 1500.min(self.cfg.goal_ms), None, &[]);
            if a == Ans::Unsat {
                self.out.stats.discharged += hard.len();
                self.cross(&body);
                return;
            }
        }
        for g in hard {
            if self.out.violation.is_some() {
                return;
            }
            self.prove_one(&g);
        }
    }

    fn cross(&mut self, body: &str) {
        if self.cfg.cross_check {
            for k in [Kind::Cvc5, Kind::Z3Old] {
                let ms = self.cfg.goal_ms;
                match self.ask_other(k, body, ms, &[]).0 {
                    Ans::Unsat => {
                        self.out.stats.cross += 1;
                        return;
                    }
                    Ans::Sat => {
                        self.out.errors.push(format!("{:?} disagrees with z3-new (sat)", k));
                        return;
                    }
                    _ => {}
                }
            }
        }
    }

    fn prove_one(&mut self, g: &Goal) {
        let ng = self.ar.not(g.b);
        let facts = self.pc.clone();
        let ms = self.cfg.goal_ms;
        let dbg = std::env::var("SYMX_DEBUG").is_ok();
        let t0 = Instant::now();
        // S1: goal with the axioms of its own applications only
        let b1 = self.emit(&[], &[ng], false).0;
        let (a, _) = self.ask(&b1, ms.min(2000), None, &[]);
        if a == Ans::Unsat {
            self.out.stats.discharged += 1;
            self.cross(&b1);
            if dbg && t0.elapsed() > Duration::from_millis(500) {
                eprintln!("  slow S1 {} {:?}", g.label, t0.elapsed());
            }
            return;
        }
        let lem: Vec<Bid> = self.lemma_ids.iter().cloned().collect();
        let rel = self.relevant(&facts, g.b);
        let mut full = facts.clone();
        full.extend(lem);
        let mut sat = false;
        let (b_full, _, has_ack) = self.emit(&full, &[ng], false);
        let b_rel = self.emit(&rel, &[ng], false).0;
        let b_pc = self.emit(&facts, &[ng], false).0;
        let mut tries: Vec<(String, u64, Option<&str>, u8)> = vec![
            (b_rel.clone(), ms / 2, None, 0),
            (b_pc.clone(), ms / 2, None, 1),
            (b_rel.clone(), ms / 2, Some("qfnra-nlsat"), 0),
            (b_full.clone(), ms, None, 1),
            (b_full.clone(), ms, Some("qfnra-nlsat"), 1),
        ];
        let b_ack = if has_ack { Some(self.emit(&full, &[ng], true).0) } else { None };
        // both back ends briefly before either at length
        for (k, t) in [(None, 800), (Some(Kind::Cvc5), 1200)] {
            let (a, _) = match k {
                None => self.ask(&b_rel, t, None, &[]),
                Some(k) => self.ask_other(k, &b_rel, t, &[]),
            };
            if a == Ans::Unsat {
                self.out.stats.discharged += 1;
                self.cross(&b_rel);
                return;
            }
        }
        if let Some(b) = &b_ack {
            tries.push((b.clone(), ms, None, 2));
        }
        // a wrong goal usually fails at plain values: a brief search before the long attempts
        if let Some(v) = self.hunt(&full, ng, g.eq, b_ack.is_some(), &g.label, true) {
            self.out.violation = Some(v);
            return;
        }
        for (i, (b, t, tac, strength)) in tries.iter().enumerate() {
            let (a, _) = self.ask(b, *t, *tac, &[]);
            if dbg {
                eprintln!("  try {} {} -> {:?} {:?}", g.label, i, a, t0.elapsed());
            }
            match a {
                Ans::Unsat => {
                    self.out.stats.discharged += 1;
                    let b = b.clone();
                    self.cross(&b);
                    return;
                }
                Ans::Sat if *strength == 2 || (*strength == 1 && !has_ack) => {
                    sat = true;
                    break;
                }
                _ => {}
            }
        }
        if !sat {
            // other back ends, and a model hunt below decides whether this is a violation
            for b in [Some(b_rel), b_ack.clone()].into_iter().flatten() {
                for k in [Kind::Cvc5, Kind::Z3Old] {
                    let (a, _) = self.ask_other(k, &b, ms, &[]);
                    if dbg {
                        eprintln!("  try {} {:?} -> {:?} {:?}", g.label, k, a, t0.elapsed());
                    }
                    if a == Ans::Unsat {
                        self.out.stats.discharged += 1;
                        return;
                    }
                }
            }
        }
        // counterexample search: every model below is a solver answer on the violated goal
        if let Some(v) = self.hunt(&full, ng, g.eq, b_ack.is_some(), &g.label, false) {
            self.out.violation = Some(v);
            return;
        }
        if sat {
            self.out.errors.push(format!("goal `{}`: solver model does not reproduce on the real code", g.label));
        } else {
            self.out.errors.push(format!("goal `{}`: no solver decided it", g.label));
        }
    }

    fn model_of(&mut self, vars: &[String], vals: &[String]) -> Option<Model> {
        if vars.len() != vals.len() {
            return None;
        }
        let mut m = Model::new();
        for (v, x) in vars.iter().zip(vals) {
            let i: usize = v[1..].parse().ok()?;
            m.insert(self.ar.vars[i].clone(), value_to_f64(x)?);
        }
        Some(m)
    }

    fn try_native(&mut self, m: &Model) -> Option<Native> {
        let f = self.native?;
        // run outside of the symbolic context: the native run does not touch it
        Some(f(m))
    }

    /// Look for solver models of facts and `ng` that fail on the real code.
    fn hunt(&mut self, facts: &[Bid], ng: Bid, eq: Option<(Id, Id)>, ack: bool, label: &str, brief: bool) -> Option<Violation> {
        let (base, vars, _) = self.emit(facts, &[ng], ack);
        let mut bounded = base.clone();
        for v in &vars {
            bounded.push_str(&format!("(assert (and (<= (- 8.0) {0}) (<= {0} 8.0)))\n", v));
        }
        let mut scripts: Vec<(String, u64)> = vec![];
        if let (Some((a, b)), false) = (eq, brief) {
            let (_, x, y) = self.cmp_poly(Op::Eq, a, b);
            let d = self.ar.sub(x, y);
            for (d16, ms) in [(16i128, 3000), (1 << 20, 1500), (1 << 32, 1500)] {
                let k = self.ar.c(Rat { n: 1, d: d16 });
                let nk = self.ar.neg(k);
                let p = self.ar.cmp(Op::Le, k, d);
                let n = self.ar.cmp(Op::Le, d, nk);
                let o = self.ar.or(vec![p, n]);
                let mut s = self.emit(facts, &[ng, o], ack).0;
                for v in &vars {
                    s.push_str(&format!("(assert (and (<= (- 8.0) {0}) (<= {0} 8.0)))\n", v));
                }
                scripts.push((s, ms));
            }
        }
        if !brief {
            scripts.push((bounded.clone(), 3000));
            scripts.push((base.clone(), 3000));
        }
        // fix most inputs to small values and let the solver find the rest
        let mut rng = self.cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ name_hash(label);
        let mut next = || {
            rng = rng.wrapping_add(0x9E3779B97F4A7C15);
            mixing(rng)
        };
        for round in 0..if brief { 8 } else { 40 } {
            let free = [0usize, 0, 1, 1, 2, 3, 4, 6][round % 8];
            let mut s = base.clone();
            let mut skip = BTreeSet::new();
            for _ in 0..free.min(vars.len()) {
                skip.insert((next() % vars.len().max(1) as u64) as usize);
            }
            for (i, v) in vars.iter().enumerate() {
                let r = next();
                if skip.contains(&i) {
                    s.push_str(&format!("(assert (and (<= (- 8.0) {0}) (<= {0} 8.0)))\n", v));
                    continue;
                }
                let n = (r % 13) as i64 - 6;
                let d = [1i64, 2, 4, 5][((r >> 32) % 4) as usize];
                let val = if n < 0 {
                    format!("(- (/ {}.0 {}.0))", -n, d)
                } else {
                    format!("(/ {}.0 {}.0)", n, d)
                };
                s.push_str(&format!("(assert (= {} {}))\n", v, val));
            }
            scripts.push((s, if brief { 300 } else { 700 }));
        }
        let t0 = Instant::now();
        let mut last = None;
        for (s, ms) in scripts {
            if t0.elapsed() > Duration::from_secs(if brief { 2 } else { 25 }) {
                break;
            }
            let (a, vals) = self.ask(&s, ms, None, &vars);
            if a != Ans::Sat {
                continue;
            }
            if let Some(m) = self.model_of(&vars, &vals) {
                match self.try_native(&m) {
                    Some(Native::Fail { label, detail }) => return Some(Violation { label, detail, model: m }),
                    Some(Native::Panic(p)) => {
                        return Some(Violation { label: label.to_string(), detail: format!("panicked: {}", p), model: m })
                    }
                    other => last = Some((m, other)),
                }
            }
        }
        if let (Some((m, o)), false) = (last, brief) {
            self.out.notes.push(format!("unreproduced model for `{}`: {:?} -> {:?}", label, m, o));
        }
        None
    }

    /// A model of the path condition, run natively: vacuity witness and encoding validation.
    fn witness(&mut self) -> bool {
        let facts = self.pc.clone();
        self.prepare(&facts);
        let t = self.ar.t();
        let (base, vars, _) = self.emit(&facts, &[t], false);
        let mut bounded = base.clone();
        for v in &vars {
            bounded.push_str(&format!("(assert (and (<= (- 8.0) {0}) (<= {0} 8.0)))\n", v));
        }
        let mut scripts = vec![];
        // generic (non-degenerate) values first
        let mut rng = self.cfg.seed ^ 0x5eed;
        for round in 0..12u64 {
            let mut s = bounded.clone();
            for (i, v) in vars.iter().enumerate() {
                rng = mixing(rng.wrapping_add(i as u64 + 77 * round + 1));
                // leave more and more variables free
                if rng % 12 < round {
                    continue;
                }
                let n = (rng >> 8) % 11;
                s.push_str(&format!(
                    "(assert (= {} {}))\n",
                    v,
                    if (rng >> 20) & 1 == 0 { format!("(/ {}.0 4.0)", n + 1) } else { format!("(- (/ {}.0 4.0))", n + 1) }
                ));
            }
            scripts.push((s, 400));
        }
        scripts.push((bounded, 3000));
        scripts.push((base, 3000));
        let mut sat = false;
        for (k, (s, ms)) in scripts.into_iter().enumerate() {
            let (a, vals) = self.ask(&s, ms, None, &vars);
            if a == Ans::Unsat && k >= 13 {
                return false;
            }
            if a != Ans::Sat {
                continue;
            }
            sat = true;
            if let Some(m) = self.model_of(&vars, &vals) {
                match self.try_native(&m) {
                    Some(Native::Pass(_)) => {
                        self.out.stats.witnesses += 1;
                        if self.out.sample.is_none() || self.out.sample.as_ref().map_or(false, |x| x.len() < m.len()) {
                            self.out.sample = Some(m);
                        }
                        return true;
                    }
                    Some(Native::Fail { label, detail }) => {
                        self.out.stats.witness_mismatch += 1;
                        self.out.notes.push(format!("witness mismatch {}: {} at {:?}", label, detail, m));
                        return true;
                    }
                    Some(Native::Panic(p)) => {
                        self.out.stats.witness_mismatch += 1;
                        self.out.notes.push(format!("witness run panicked: {} at {:?}", p, m));
                        return true;
                    }
                    _ => {}
                }
            }
        }
        sat
    }
}

#[derive(Default)]
struct Emit {
    vars: BTreeSet<u32>,
    atoms: BTreeSet<Id>,
    defs: Vec<String>,
    asserts: Vec<String>,
    memo: HashMap<Id, String>,
    bmemo: HashMap<Bid, String>,
    trig: HashSet<Id>,
}

thread_local! {
    static UNPROVEN_AT: RefCell<HashSet<(Id, usize)>> = RefCell::new(HashSet::new());
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Run `f` on every feasible path.
pub fn explore(f: fn(), native: Option<fn(&Model) -> Native>, cfg: Config) -> Outcome {
    CTX.with(|c| *c.borrow_mut() = Some(Ctx::new(cfg.clone(), native)));
    let mut stack: Vec<(bool, bool)> = vec![];
    let mut witnessed = 0usize;
    loop {
        if Instant::now() > cfg.deadline {
            with(|c| c.out.errors.push("time limit reached before all paths were explored".into()));
            break;
        }
        UNPROVEN_AT.with(|u| u.borrow_mut().clear());
        with(|c| c.reset_path(stack.iter().map(|x| x.0).collect()));
        let r = catch_unwind(AssertUnwindSafe(f));
        let mut stop = false;
        match r {
            Ok(()) => {
                with(|c| {
                    c.out.stats.paths += 1;
                    c.flush();
                    if c.out.violation.is_none() && witnessed < 6 && c.witness() {
                        witnessed += 1;
                    }
                });
            }
            Err(p) => {
                if p.is::<Infeasible>() {
                    with(|c| {
                        c.out.stats.infeasible += 1;
                        c.flush();
                    });
                } else if let Some(Abort(m)) = p.downcast_ref::<Abort>() {
                    with(|c| c.out.errors.push(m.clone()));
                    stop = true;
                } else {
                    let msg = panic_text(&*p);
                    if msg.starts_with("symx-internal") {
                        with(|c| c.out.errors.push(msg.clone()));
                        stop = true;
                    } else {
                        with(|c| {
                            c.out.stats.paths += 1;
                            c.flush();
                            if c.out.violation.is_some() {
                                return;
                            }
                            let facts = c.pc.clone();
                            c.prepare(&facts);
                            let t = c.ar.t();
                            match c.hunt(&facts, t, None, true, "does not panic", false) {
                                Some(v) => c.out.violation = Some(v),
                                None => {
                                    let (b, _, _) = c.emit(&facts, &[t], true);
                                    if c.ask(&b, 5000, None, &[]).0 != Ans::Unsat {
                                        c.out.errors.push(format!("panic not reproduced natively: {}", msg));
                                    }
                                }
                            }
                        });
                    }
                }
            }
        }
        let dec = with(|c| std::mem::take(&mut c.decisions));
        if stop || with(|c| c.out.violation.is_some() || c.out.errors.len() > 8) {
            break;
        }
        // merge pending alternatives
        for (i, d) in dec.iter().enumerate() {
            if i < stack.len() {
                stack[i].0 = d.0;
            } else {
                stack.push(*d);
            }
        }
        stack.truncate(dec.len());
        while let Some(&(_, alt)) = stack.last() {
            if alt {
                break;
            }
            stack.pop();
        }
        match stack.last_mut() {
            None => break,
            Some(l) => *l = (!l.0, false),
        }
        if with(|c| c.out.stats.paths + c.out.stats.infeasible >= c.cfg.max_paths) {
            with(|c| c.out.errors.push("path limit reached".into()));
            break;
        }
    }
    let mut ctx = CTX.with(|c| c.borrow_mut().take().unwrap());
    ctx.solver.kill();
    let mut out = ctx.out;
    if out.violation.is_none() && out.errors.is_empty() {
        if witnessed == 0 {
            out.errors.push("vacuous: no path end is reachable".into());
        }
        if out.stats.goals == 0 {
            out.errors.push("vacuous: no goal was stated".into());
        }
    }
    out
}

/// Inputs that lead to where this thread is now, for a process about to end.
pub fn crash_models() -> Vec<Model> {
    CTX.with(|c| {
        let mut g = match c.try_borrow_mut() {
            Ok(g) => g,
            // inside a native run
            Err(_) => return vec![crate::scal::native_inputs()],
        };
        let c = match g.as_mut() {
            Some(c) => c,
            None => return vec![crate::scal::native_inputs()],
        };
        let facts = c.pc.clone();
        c.prepare(&facts);
        let t = c.ar.t();
        let (base, vars, _) = c.emit(&facts, &[t], true);
        let mut out = vec![];
        for round in 0..4 {
            let mut s = base.clone();
            for (i, v) in vars.iter().enumerate() {
                if round < 3 {
                    s.push_str(&format!("(assert (and (<= (- 8.0) {0}) (<= {0} 8.0)))\n", v));
                }
                if round < 2 {
                    s.push_str(&format!("(assert (> {} {}.0))\n", v, i % 3 * round));
                }
            }
            let (a, vals) = c.ask(&s, 3000, None, &vars);
            if a == Ans::Sat {
                out.extend(c.model_of(&vars, &vals));
            }
        }
        out
    })
}

pub fn infeasible() -> ! {
    resume_unwind(Box::new(Infeasible))
}
pub fn abort(m: String) -> ! {
    resume_unwind(Box::new(Abort(m)))
}
