//! Hash-consed terms over the reals, and boolean terms over them.
use crate::rat::Rat;
use std::collections::{BTreeMap, HashMap};

pub type Id = u32;
pub type Bid = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(Rat),
    Var(u32),
    Add(Id, Id),
    Mul(Id, Id),
    Neg(Id),
    Div(Id, Id),
    Ite(Bid, Id, Id),
    App(&'static str, Vec<Id>),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Lt,
    Le,
    Eq,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BNode {
    True,
    False,
    Cmp(Op, Id, Id),
    Not(Bid),
    And(Vec<Bid>),
    Or(Vec<Bid>),
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Id>,
    pub bnodes: Vec<BNode>,
    bmap: HashMap<BNode, Bid>,
    pub vars: Vec<String>,
    varmap: HashMap<String, u32>,
}

impl Arena {
    pub fn mk(&mut self, n: Node) -> Id {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let i = self.nodes.len() as Id;
        self.nodes.push(n.clone());
        self.map.insert(n, i);
        i
    }
    pub fn mkb(&mut self, n: BNode) -> Bid {
        if let Some(&i) = self.bmap.get(&n) {
            return i;
        }
        let i = self.bnodes.len() as Bid;
        self.bnodes.push(n.clone());
        self.bmap.insert(n, i);
        i
    }
    pub fn var(&mut self, name: &str) -> Id {
        let v = match self.varmap.get(name) {
            Some(&v) => v,
            None => {
                let v = self.vars.len() as u32;
                self.vars.push(name.to_string());
                self.varmap.insert(name.to_string(), v);
                v
            }
        };
        self.mk(Node::Var(v))
    }
    pub fn node(&self, i: Id) -> &Node {
        &self.nodes[i as usize]
    }
    pub fn bnode(&self, i: Bid) -> &BNode {
        &self.bnodes[i as usize]
    }
    pub fn c(&mut self, r: Rat) -> Id {
        self.mk(Node::Const(r))
    }
    pub fn int(&mut self, n: i128) -> Id {
        self.c(Rat::int(n))
    }
    pub fn is_const(&self, i: Id) -> Option<Rat> {
        match self.node(i) {
            Node::Const(r) => Some(*r),
            _ => None,
        }
    }
    pub fn is_zero(&self, i: Id) -> bool {
        self.is_const(i).map_or(false, |r| r.is_zero())
    }
    pub fn is_one(&self, i: Id) -> bool {
        self.is_const(i).map_or(false, |r| r.is_one())
    }
    pub fn add(&mut self, a: Id, b: Id) -> Id {
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            if let Some(z) = x.add(y) {
                return self.c(z);
            }
        }
        if self.is_zero(a) {
            return b;
        }
        if self.is_zero(b) {
            return a;
        }
        if *self.node(a) == Node::Neg(b) || *self.node(b) == Node::Neg(a) {
            return self.int(0);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Node::Add(a, b))
    }
    pub fn neg(&mut self, a: Id) -> Id {
        match self.node(a).clone() {
            Node::Const(r) => self.c(r.neg()),
            Node::Neg(x) => x,
            _ => self.mk(Node::Neg(a)),
        }
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        let nb = self.neg(b);
        self.add(a, nb)
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            if let Some(z) = x.mul(y) {
                return self.c(z);
            }
        }
        if self.is_zero(a) || self.is_zero(b) {
            return self.int(0);
        }
        if self.is_one(a) {
            return b;
        }
        if self.is_one(b) {
            return a;
        }
        if let Node::Neg(x) = *self.node(a) {
            let m = self.mul(x, b);
            return self.neg(m);
        }
        if let Node::Neg(y) = *self.node(b) {
            let m = self.mul(a, y);
            return self.neg(m);
        }
        if self.is_const(a).map_or(false, |r| r == Rat::int(-1)) {
            return self.neg(b);
        }
        if self.is_const(b).map_or(false, |r| r == Rat::int(-1)) {
            return self.neg(a);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Node::Mul(a, b))
    }
    pub fn div(&mut self, a: Id, b: Id) -> Id {
        if let Some(y) = self.is_const(b) {
            if !y.is_zero() {
                if let Some(r) = Rat::ONE.div(y) {
                    let c = self.c(r);
                    return self.mul(a, c);
                }
            }
        }
        if let Node::Neg(x) = *self.node(a) {
            let m = self.div(x, b);
            return self.neg(m);
        }
        if let Node::Neg(y) = *self.node(b) {
            let m = self.div(a, y);
            return self.neg(m);
        }
        self.mk(Node::Div(a, b))
    }
    pub fn rem(&mut self, a: Id, b: Id) -> Id {
        self.app("rem", vec![a, b])
    }
    pub fn ite(&mut self, c: Bid, a: Id, b: Id) -> Id {
        if a == b {
            return a;
        }
        match self.bnode(c) {
            BNode::True => a,
            BNode::False => b,
            _ => self.mk(Node::Ite(c, a, b)),
        }
    }
    pub fn app(&mut self, f: &'static str, args: Vec<Id>) -> Id {
        self.mk(Node::App(f, args))
    }
    pub fn pi(&mut self) -> Id {
        self.app("pi", vec![])
    }
    // booleans
    pub fn t(&mut self) -> Bid {
        self.mkb(BNode::True)
    }
    pub fn f(&mut self) -> Bid {
        self.mkb(BNode::False)
    }
    pub fn cmp(&mut self, op: Op, a: Id, b: Id) -> Bid {
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            let r = match op {
                Op::Lt => x.lt(y),
                Op::Le => y.lt(x).map(|v| !v),
                Op::Eq => Some(x == y),
            };
            if let Some(v) = r {
                return if v { self.t() } else { self.f() };
            }
        }
        if a == b {
            return if op == Op::Lt { self.f() } else { self.t() };
        }
        let (a, b) = if op == Op::Eq && a > b { (b, a) } else { (a, b) };
        self.mkb(BNode::Cmp(op, a, b))
    }
    pub fn not(&mut self, a: Bid) -> Bid {
        match *self.bnode(a) {
            BNode::True => self.f(),
            BNode::False => self.t(),
            BNode::Not(x) => x,
            _ => self.mkb(BNode::Not(a)),
        }
    }
    pub fn and(&mut self, v: Vec<Bid>) -> Bid {
        let mut o = vec![];
        for x in v {
            match self.bnode(x) {
                BNode::True => {}
                BNode::False => return self.f(),
                _ => o.push(x),
            }
        }
        match o.len() {
            0 => self.t(),
            1 => o[0],
            _ => self.mkb(BNode::And(o)),
        }
    }
    pub fn or(&mut self, v: Vec<Bid>) -> Bid {
        let mut o = vec![];
        for x in v {
            match self.bnode(x) {
                BNode::False => {}
                BNode::True => return self.t(),
                _ => o.push(x),
            }
        }
        match o.len() {
            0 => self.f(),
            1 => o[0],
            _ => self.mkb(BNode::Or(o)),
        }
    }
    pub fn abs(&mut self, x: Id) -> Id {
        let z = self.int(0);
        let c = self.cmp(Op::Lt, x, z);
        let n = self.neg(x);
        self.ite(c, n, x)
    }
    pub fn sqrt(&mut self, x: Id) -> Id {
        if let Some(r) = self.is_const(x) {
            if r.n >= 0 {
                let isq = |v: i128| -> Option<i128> {
                    let s = (v as f64).sqrt().round() as i128;
                    (s.checked_mul(s)? == v).then_some(s)
                };
                if let (Some(a), Some(b)) = (isq(r.n), isq(r.d)) {
                    if let Some(q) = Rat::new(a, b) {
                        return self.c(q);
                    }
                }
            }
        }
        self.app("sqrt", vec![x])
    }

    /// Linear form: sum of rational coefficients times non-linear atoms.
    fn lin(&mut self, id: Id, k: Rat, out: &mut BTreeMap<Id, Rat>) -> Option<()> {
        match self.node(id).clone() {
            Node::Const(r) => {
                let one = self.int(1);
                self.lin_add(one, k.mul(r)?, out)
            }
            Node::Add(a, b) => {
                self.lin(a, k, out)?;
                self.lin(b, k, out)
            }
            Node::Neg(a) => self.lin(a, k.neg(), out),
            Node::Mul(a, b) => {
                if let Some(r) = self.is_const(a) {
                    self.lin(b, k.mul(r)?, out)
                } else if let Some(r) = self.is_const(b) {
                    self.lin(a, k.mul(r)?, out)
                } else {
                    self.lin_add(id, k, out)
                }
            }
            _ => self.lin_add(id, k, out),
        }
    }
    fn lin_add(&mut self, atom: Id, k: Rat, out: &mut BTreeMap<Id, Rat>) -> Option<()> {
        let e = out.entry(atom).or_insert(Rat::ZERO);
        *e = e.add(k)?;
        if e.is_zero() {
            out.remove(&atom);
        }
        Some(())
    }
    /// (cos x, sin x), expanded by the addition theorem over the linear form of x, with
    /// exact values at multiples of pi/2.
    pub fn cossin(&mut self, x: Id) -> (Id, Id) {
        let mut m = BTreeMap::new();
        if self.lin(x, Rat::ONE, &mut m).is_none() {
            m.clear();
            m.insert(x, Rat::ONE);
        }
        let pi = self.pi();
        let (mut c, mut s) = (self.int(1), self.int(0));
        for (atom, k) in m {
            let (bc, bs);
            if atom == pi && k.mul(Rat::int(2)).map_or(false, |r| r.is_int()) {
                let q = k.mul(Rat::int(2)).unwrap().n.rem_euclid(4);
                let (ci, si) = [(1, 0), (0, 1), (-1, 0), (0, -1)][q as usize];
                bc = self.int(ci);
                bs = self.int(si);
            } else {
                let p = k.n.unsigned_abs();
                let (p, q, a) = if p <= 8 {
                    (p, k.d, atom)
                } else {
                    let kc = self.c(Rat { n: k.n.abs(), d: k.d });
                    (1, 1, self.mul(kc, atom))
                };
                let qn = self.int(q);
                let c1 = self.app("cosb", vec![a, qn]);
                let s1 = self.app("sinb", vec![a, qn]);
                let (mut cc, mut ss) = (self.int(1), self.int(0));
                for _ in 0..p {
                    (cc, ss) = self.cmulc((cc, ss), (c1, s1));
                }
                if k.n < 0 {
                    ss = self.neg(ss);
                }
                bc = cc;
                bs = ss;
            }
            (c, s) = self.cmulc((c, s), (bc, bs));
        }
        (c, s)
    }
    fn cmulc(&mut self, a: (Id, Id), b: (Id, Id)) -> (Id, Id) {
        let (x, y) = (self.mul(a.0, b.0), self.mul(a.1, b.1));
        let re = self.sub(x, y);
        let (x, y) = (self.mul(a.0, b.1), self.mul(a.1, b.0));
        (re, self.add(x, y))
    }
}
