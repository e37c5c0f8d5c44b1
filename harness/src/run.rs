//! Runs one episode: clients executing abstract operations against the same
//! tables, under a schedule of database calls chosen by the specification.
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::ops::*;
use crate::world::*;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Step {
    pub c: String,
    /// decision: go, fail, failafter, crash, crashafter; "run" runs the current
    /// operation of the client to its end; "start" only starts it
    pub d: String,
    /// expected kind of database call ("et.fetch" ...), "" = any
    pub k: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Episode {
    pub id: String,
    /// byte strings behind the identifiers (hex)
    pub bytes: HashMap<String, String>,
    /// generated byte strings: id -> (length, seed)
    pub gen: HashMap<String, (usize, u64)>,
    pub mem: bool,
    pub detail: u8,
    /// sequential part, executed by client "s"
    pub init: Vec<Op>,
    pub clients: HashMap<String, Vec<Op>>,
    pub sched: Vec<Step>,
    /// executed when all clients are done
    pub fin: Vec<Op>,
    /// all clients use the same instance
    pub shared: bool,
    /// the callbacks are scheduled as the storage accesses are
    #[serde(default)]
    pub cb: bool,
    pub meta: Value,
    /// what each replica does apart, after `init`; they are then merged in the
    /// tables of the first one (multi-valued backend)
    pub merge: Vec<Vec<Op>>,
    /// all the replicas start from the index left by `init`, not only the first
    pub fork: bool,
    /// the merged storage keeps identical values
    #[serde(default)]
    pub bag: bool,
    /// an operation doing more storage accesses is considered to hang
    pub maxcalls: u64,
    /// ids whose bytes must not be found in what is sent to the storage
    pub secrets: Vec<String>,
    /// a subscriber displays all the traces of the library
    pub trace: bool,
}

struct Client {
    name: String,
    ops: std::collections::VecDeque<Op>,
    cur: Option<(Fut, Op)>,
    calls: u64,
    hit: u64,
    inst: usize,
    dead: bool,
}

pub struct Runner {
    pub env: Env,
    cl: Vec<Client>,
    maxcalls: u64,
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

pub fn genbytes(len: usize, seed: u64) -> Vec<u8> {
    // seed classes give adversarial contents
    match seed % 7 {
        0 => vec![0u8; len],
        1 => vec![0xffu8; len],
        2 => (0..len).map(|i| (i as u64 * 31 + seed) as u8).collect(),
        3 => vec![b'l'; len],
        4 => (0..len).map(|i| if i % 2 == 0 { b'w' } else { 255 }).collect(),
        _ => {
            let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
            (0..len)
                .map(|_| {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    (x >> 24) as u8
                })
                .collect()
        }
    }
}

fn assoc_str(a: &[(String, String, String)]) -> Value {
    json!(a
        .iter()
        .filter(|x| x.0 != "-" && x.1 != "none")
        .map(|x| json!([x.0, x.1, x.2]))
        .collect::<Vec<_>>())
}

impl Runner {
    pub fn new(ep: &Episode) -> Self {
        let env = Env::new(ep.mem);
        env.w.detail.set(ep.detail);
        env.w.cbgate.set(ep.cb);
        for (k, v) in &ep.bytes {
            env.w.define(k, unhex(v));
        }
        for (k, (n, s)) in &ep.gen {
            env.w.define(k, genbytes(*n, *s));
        }
        for s in &ep.secrets {
            let b = match s.strip_prefix("key:") {
                Some(k) => user_key_bytes(k).to_vec(),
                None => env.w.b(s),
            };
            env.w.secrets.borrow_mut().push((s.clone(), b));
        }
        let maxcalls = if ep.maxcalls == 0 { 20000 } else { ep.maxcalls };
        Runner { env, cl: vec![], maxcalls }
    }

    fn client(&mut self, name: &str, ops: Vec<Op>, inst: usize) -> usize {
        let i = self.cl.len();
        self.env.w.names.borrow_mut().push(name.to_string());
        self.cl.push(Client {
            name: name.to_string(),
            ops: ops.into(),
            cur: None,
            calls: 0,
            hit: 0,
            inst,
            dead: false,
        });
        i
    }

    fn w(&self) -> Rc<World> {
        self.env.w.clone()
    }

    /// Starts the next operation of the client, up to its first database call.
    fn begin(&mut self, c: usize) -> bool {
        loop {
            let Some(op) = self.cl[c].ops.pop_front() else {
                return false;
            };
            if self.special(c, &op) {
                continue;
            }
            let inst = if op.inst > 0 { op.inst } else { self.cl[c].inst };
            let fx = self.env.fx(inst);
            let w = self.w();
            w.push(json!({"t":"inv","c":self.cl[c].name,"op":op.op,"cred":op.cred.join("/"),
                "new":op.new.join("/"),"as":assoc_str(&op.assoc),"kws":op.kws,
                "drop":op.drop,"rate": if op.rate >= 1.0 {"full"} else if op.rate > 0.0 {"part"} else {"none"},
                "arg":op.arg,"stop":op.stop}));
            w.cur.set(c);
            self.cl[c].calls = 0;
            self.cl[c].hit = 0;
            self.cl[c].cur = Some((start(w, fx, op.clone()), op));
            self.poll(c);
            return true;
        }
    }

    /// Operations of the harness itself; returns whether `op` is one.
    fn special(&mut self, _c: usize, op: &Op) -> bool {
        let env = &self.env;
        match op.op.as_str() {
            "snap" => env.snap(&op.arg, op.n == 1),
            "mark" => env.w.push(json!({"t":"mark","tag":op.arg})),
            "detail" => env.w.detail.set(op.n as u8),
            "tamper" => crate::misc::tamper(env, op),
            "reload" => crate::misc::reload(env),
            "layout" => crate::misc::layout(env, op),
            "load" => crate::misc::load(env, op),
            "save" => crate::misc::save(env, op),
            "clear" => {
                env.et.store.with(|m| m.clear());
                env.ct.store.with(|m| m.clear());
            }
            "keygen" => crate::misc::keygen(env, op),
            "deep" => crate::misc::deep(env, op),
            "mass" => crate::mass::mass(env, op),
            "sizes" => crate::misc::sizes(env),
            _ => return false,
        }
        true
    }

    fn finish(&mut self, c: usize, mut v: Value) {
        let w = self.w();
        self.cl[c].cur = None;
        w.pend.borrow_mut().remove(&c);
        w.grant.borrow_mut().remove(&c);
        let o = v.as_object_mut().unwrap();
        o.insert("t".into(), json!("res"));
        o.insert("c".into(), json!(self.cl[c].name));
        for k in ["new", "out"] {
            o.entry(k).or_insert(json!([]));
        }
        o.entry("msg").or_insert(json!(""));
        o.insert("calls".into(), json!(self.cl[c].calls));
        o.insert("hit".into(), json!(self.cl[c].hit));
        w.push(v);
    }

    fn poll(&mut self, c: usize) {
        let w = self.w();
        w.cur.set(c);
        w.dead_wait.set(false);
        let Some((fut, _)) = self.cl[c].cur.as_mut() else { return };
        let mut cx = Context::from_waker(Waker::noop());
        match catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx))) {
            Ok(Poll::Ready(v)) => self.finish(c, v),
            Ok(Poll::Pending) => {
                if w.dead_wait.get() {
                    w.dead_wait.set(false);
                    self.finish(c, json!({"st":"crash"}));
                }
            }
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                self.finish(c, json!({"st":"panic","msg":m.chars().take(200).collect::<String>()}));
            }
        }
    }

    fn pending(&self, c: usize) -> Option<String> {
        self.env.w.pend.borrow().get(&c).cloned()
    }

    /// Lets the pending database call of the client happen with the decision.
    fn grant(&mut self, c: usize, d: Dec) {
        let w = self.w();
        self.cl[c].calls += 1;
        if self.cl[c].calls > self.maxcalls {
            self.finish(c, json!({"st":"hang"}));
            return;
        }
        if d == Dec::Crash {
            self.finish(c, json!({"st":"crash"}));
            return;
        }
        if d != Dec::Go {
            self.cl[c].hit += 1;
        }
        w.grant.borrow_mut().insert(c, d);
        self.poll(c);
    }

    /// The decision wanted by the fault plan of the operation.
    fn plan(&self, c: usize) -> Dec {
        let Some((_, op)) = &self.cl[c].cur else { return Dec::Go };
        let Some(f) = &op.fault else { return Dec::Go };
        let n = self.cl[c].calls as i64;
        if !f.kind.is_empty() && self.pending(c).as_deref() != Some(f.kind.as_str()) {
            return Dec::Go;
        }
        if n >= f.at && (f.n == 0 || n < f.at + f.n as i64) {
            Dec::parse(&f.d)
        } else {
            Dec::Go
        }
    }

    fn run_op(&mut self, c: usize) {
        while self.cl[c].cur.is_some() {
            let d = self.plan(c);
            self.grant(c, d);
        }
    }

    fn run_all(&mut self, c: usize) {
        self.run_op(c);
        while self.begin(c) {
            self.run_op(c);
        }
    }

    pub fn run(ep: &Episode) -> Value {
        crate::trace::ON.store(ep.trace, std::sync::atomic::Ordering::Relaxed);
        let mut r = Runner::new(ep);
        r.w().ways.set(ep.id.bytes().fold(7, |x: u64, b| x.wrapping_mul(31) + u64::from(b)));
        let s = r.client("s", ep.init.clone(), 0);
        r.run_all(s);
        if !ep.merge.is_empty() {
            r.env.w.push(json!({"t":"fork","n":ep.merge.len(),"copy":ep.fork}));
            let mut envs = Vec::new();
            for _ in 1..ep.merge.len() {
                let e = Env::with(r.env.w.clone(), false);
                if ep.fork {
                    crate::misc::copy(&e, &r.env);
                }
                envs.push(e);
            }
            for (j, ops) in ep.merge.iter().enumerate() {
                if j > 0 {
                    std::mem::swap(&mut r.env, &mut envs[j - 1]);
                }
                let m = r.client(&format!("m{j}"), ops.clone(), 0);
                r.run_all(m);
                if j > 0 {
                    std::mem::swap(&mut r.env, &mut envs[j - 1]);
                }
            }
            let mut n = [0, 0];
            for e in &envs {
                n[0] += crate::misc::merge(&r.env.et, &e.et, ep.bag);
                n[1] += crate::misc::merge(&r.env.ct, &e.ct, ep.bag);
            }
            r.env.w.push(json!({"t":"merged","et":n[0],"ct":n[1],"bag":ep.bag}));
        }
        let mut idx = HashMap::new();
        let mut names: Vec<_> = ep.clients.keys().cloned().collect();
        names.sort();
        for (i, n) in names.iter().enumerate() {
            let inst = if ep.shared { 1 } else { i + 1 };
            let c = r.client(n, ep.clients[n].clone(), inst);
            idx.insert(n.clone(), c);
        }
        let mut drift = 0u64;
        for st in &ep.sched {
            let Some(&c) = idx.get(&st.c) else { continue };
            if r.cl[c].dead {
                continue;
            }
            if r.cl[c].cur.is_none() && !r.begin(c) {
                drift += 1;
                continue;
            }
            match st.d.as_str() {
                "start" => {}
                "run" => r.run_op(c),
                "crashnow" => {
                    if r.cl[c].cur.is_some() {
                        r.finish(c, json!({"st":"crash"}));
                    }
                    r.cl[c].dead = true;
                }
                d => {
                    let dec = Dec::parse(d);
                    if !st.k.is_empty() && r.pending(c).as_deref() != Some(st.k.as_str()) {
                        // the implementation is not at the call the schedule expects
                        drift += 1;
                        if dec != Dec::Go {
                            // look for the expected call before injecting the fault
                            let mut lim = 0;
                            while r.cl[c].cur.is_some()
                                && r.pending(c).as_deref() != Some(st.k.as_str())
                                && lim < 50
                            {
                                r.grant(c, Dec::Go);
                                lim += 1;
                            }
                        }
                        if r.cl[c].cur.is_none() {
                            continue;
                        }
                    }
                    let dec = if dec == Dec::Go { r.plan(c) } else { dec };
                    r.grant(c, dec);
                }
            }
        }
        // let everybody finish
        loop {
            let mut busy = false;
            for n in &names {
                let c = idx[n];
                if r.cl[c].dead {
                    continue;
                }
                if r.cl[c].cur.is_none() && !r.begin(c) {
                    continue;
                }
                busy = true;
                if r.cl[c].cur.is_some() {
                    let d = r.plan(c);
                    r.grant(c, d);
                }
            }
            if !busy {
                break;
            }
        }
        r.env.w.push(json!({"t":"mark","tag":"quiet"}));
        let f = r.client("f", ep.fin.clone(), 90);
        r.run_all(f);
        let ev = std::mem::take(&mut *r.env.w.log.borrow_mut());
        json!({"id":ep.id,"drift":drift,"meta":ep.meta,"ev":ev})
    }
}
