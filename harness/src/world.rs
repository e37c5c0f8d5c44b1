//! The simulated world in which the real Findex code runs: two tables behind
//! the public `DbInterface` trait, a scheduler gate in front of every database
//! call, fault injection, and a log of everything observable.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::future::poll_fn;
use std::rc::Rc;
use std::task::Poll;

use async_trait::async_trait;
use cosmian_findex::*;
use serde_json::{json, Value};

#[derive(Debug)]
pub struct SimErr(pub String);
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for SimErr {}
impl DbInterfaceErrorTrait for SimErr {}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dec {
    Go,
    /// The call fails and has no effect.
    Fail,
    /// The call takes effect, but its caller gets an error.
    FailAfter,
    /// The client dies before the call takes effect.
    Crash,
    /// The client dies right after the call took effect.
    CrashAfter,
}

impl Dec {
    pub fn parse(s: &str) -> Dec {
        match s {
            "fail" => Dec::Fail,
            "failafter" => Dec::FailAfter,
            "crash" => Dec::Crash,
            "crashafter" => Dec::CrashAfter,
            _ => Dec::Go,
        }
    }
}

/// Maps byte strings to short stable identifiers.
#[derive(Default)]
pub struct Intern {
    pub map: HashMap<Vec<u8>, String>,
    pub prefix: &'static str,
}
impl Intern {
    pub fn id(&mut self, b: &[u8]) -> String {
        let n = self.map.len();
        let p = self.prefix;
        self.map
            .entry(b.to_vec())
            .or_insert_with(|| format!("{p}{n}"))
            .clone()
    }
}

#[derive(Default)]
pub struct World {
    pub log: RefCell<Vec<Value>>,
    /// 0: no database events, 1: kinds and sizes, 2: tokens and values
    pub detail: Cell<u8>,
    /// client being polled
    pub cur: Cell<usize>,
    pub names: RefCell<Vec<String>>,
    pub pend: RefCell<HashMap<usize, String>>,
    pub grant: RefCell<HashMap<usize, Dec>>,
    pub tokens: RefCell<Intern>,
    pub values: RefCell<Intern>,
    pub nonces: RefCell<Intern>,
    pub digests: RefCell<Intern>,
    pub dead_wait: Cell<bool>,
    /// number of database calls per client, all operations together
    pub calls: Cell<u64>,
    /// ids of keywords, data (both directions)
    pub bytes: RefCell<HashMap<String, Vec<u8>>>,
    pub rev: RefCell<HashMap<Vec<u8>, String>>,
    /// byte strings that must never be readable in what is sent to the storage
    pub secrets: RefCell<Vec<(String, Vec<u8>)>>,
    pub ways: Cell<u64>,
    /// the callbacks wait for the scheduler too
    pub cbgate: Cell<bool>,
}

impl World {
    pub fn new() -> Rc<Self> {
        let w = World::default();
        w.tokens.borrow_mut().prefix = "t";
        w.values.borrow_mut().prefix = "e";
        w.nonces.borrow_mut().prefix = "n";
        w.digests.borrow_mut().prefix = "S";
        Rc::new(w)
    }
    /// Picks one of several equivalent ways to do something.
    pub fn way(&self) -> usize {
        let x = self.ways.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.ways.set(x);
        (x >> 40) as usize
    }
    pub fn push(&self, v: Value) {
        self.log.borrow_mut().push(v);
    }
    pub fn cname(&self, c: usize) -> String {
        self.names.borrow().get(c).cloned().unwrap_or_else(|| format!("c{c}"))
    }
    pub fn curname(&self) -> String {
        self.cname(self.cur.get())
    }
    pub fn tok(&self, t: &Token) -> String {
        self.tokens.borrow_mut().id(t)
    }
    pub fn val<const N: usize>(&self, v: &EncryptedValue<N>) -> (String, String) {
        let b: Vec<u8> = v.into();
        let n = self.nonces.borrow_mut().id(&b[..NONCE_LENGTH]);
        // the ciphertext alone identifies the value
        (self.values.borrow_mut().id(&b[NONCE_LENGTH..]), n)
    }
    pub fn define(&self, id: &str, b: Vec<u8>) {
        // labels are never read back
        if !id.starts_with('L') {
            self.rev.borrow_mut().insert(b.clone(), id.to_string());
        }
        self.bytes.borrow_mut().insert(id.to_string(), b);
    }
    pub fn b(&self, id: &str) -> Vec<u8> {
        if let Some(b) = self.bytes.borrow().get(id) {
            return b.clone();
        }
        let b = id.as_bytes().to_vec();
        self.define(id, b.clone());
        b
    }
    pub fn name(&self, b: &[u8]) -> String {
        if let Some(i) = self.rev.borrow().get(b) {
            return i.clone();
        }
        format!("?{}", hex(&b[..b.len().min(24)]))
    }

    /// Looks for 8 consecutive bytes of a secret in the bytes sent to the storage.
    pub fn scan(&self, sent: &[u8]) {
        for (id, s) in self.secrets.borrow().iter() {
            if s.len() < 8 {
                continue;
            }
            let mut starts: Vec<usize> = (0..=s.len() - 8).step_by(8).collect();
            starts.push(s.len() - 8);
            for st in starts {
                let pat = &s[st..st + 8];
                if sent.windows(8).any(|w| w == pat) {
                    self.push(json!({"t":"leak","what":id}));
                    return;
                }
            }
        }
    }

    async fn gate(&self, call: String) -> Dec {
        let c = self.cur.get();
        self.calls.set(self.calls.get() + 1);
        self.pend.borrow_mut().insert(c, call);
        poll_fn(|_| {
            let c = self.cur.get();
            match self.grant.borrow_mut().remove(&c) {
                Some(d) => {
                    self.pend.borrow_mut().remove(&c);
                    Poll::Ready(d)
                }
                None => Poll::Pending,
            }
        })
        .await
    }
    /// A callback of the user: may take time, fail, or be the last thing its client does.
    pub async fn callback(&self, name: &str) -> Result<(), String> {
        if !self.cbgate.get() {
            return Ok(());
        }
        match self.gate(format!("cb.{name}")).await {
            Dec::Go => Ok(()),
            Dec::Fail | Dec::FailAfter => Err("injected".to_string()),
            _ => {
                self.die().await;
                unreachable!()
            }
        }
    }
    async fn die(&self) {
        self.dead_wait.set(true);
        poll_fn::<(), _>(|_| Poll::Pending).await
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// The storage behind a table.
pub enum Store<const N: usize> {
    /// reference implementation of the documented contract
    Sim(RefCell<HashMap<Token, EncryptedValue<N>>>),
    /// the repository's own in-memory backend
    Mem(InMemoryDb<N>),
}

impl<const N: usize> Store<N> {
    pub fn snapshot(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
        let f = |m: &HashMap<Token, EncryptedValue<N>>| {
            m.iter().map(|(k, v)| (k.to_vec(), Vec::<u8>::from(v))).collect()
        };
        match self {
            Store::Sim(m) => f(&m.borrow()),
            Store::Mem(m) => f(&m.lock().unwrap()),
        }
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut HashMap<Token, EncryptedValue<N>>) -> R) -> R {
        match self {
            Store::Sim(m) => f(&mut m.borrow_mut()),
            Store::Mem(m) => f(&mut m.lock().unwrap()),
        }
    }
}

pub struct SimDb<const N: usize> {
    pub world: Rc<World>,
    pub tab: &'static str,
    pub store: Rc<Store<N>>,
    /// additional values returned by `fetch` (multi-valued backends)
    pub extra: Rc<RefCell<Vec<(Token, EncryptedValue<N>)>>>,
}

impl<const N: usize> Clone for SimDb<N> {
    fn clone(&self) -> Self {
        Self {
            world: self.world.clone(),
            tab: self.tab,
            store: self.store.clone(),
            extra: self.extra.clone(),
        }
    }
}

impl<const N: usize> std::fmt::Debug for SimDb<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "SimDb({})", self.tab)
    }
}

fn boom(s: &str) -> SimErr {
    SimErr(format!("injected: {s}"))
}

impl<const N: usize> SimDb<N> {
    pub fn new(world: &Rc<World>, tab: &'static str, mem: bool) -> Self {
        Self {
            world: world.clone(),
            tab,
            store: Rc::new(if mem {
                Store::Mem(InMemoryDb::default())
            } else {
                Store::Sim(RefCell::default())
            }),
            extra: Rc::default(),
        }
    }
    fn pairs(&self, m: impl Iterator<Item = (Token, EncryptedValue<N>)>) -> Value {
        let mut l: Vec<Value> = m
            .map(|(t, v)| {
                let (v, n) = self.world.val(&v);
                json!([self.world.tok(&t), v, n])
            })
            .collect();
        l.sort_by_key(|v| v.to_string());
        Value::Array(l)
    }
    fn toks(&self, m: &HashSet<Token>) -> Value {
        let mut l: Vec<String> = m.iter().map(|t| self.world.tok(t)).collect();
        l.sort();
        json!(l)
    }
    fn leaks(&self, toks: &mut dyn Iterator<Item = Token>, vals: &TokenToEncryptedValueMap<N>) {
        if self.world.detail.get() < 2 {
            return;
        }
        for t in toks {
            self.world.scan(&t);
        }
        for (t, v) in vals.iter() {
            self.world.scan(t);
            self.world.scan(&Vec::<u8>::from(v));
        }
    }
    fn event(&self, call: &str, st: &str, size: [usize; 3], full: impl FnOnce() -> Value) {
        let w = &self.world;
        match w.detail.get() {
            0 => {}
            1 => w.push(json!({"t":"db","c":w.curname(),"tab":self.tab,"call":call,"st":st,
                               "na":size[0],"nb":size[1],"nr":size[2]})),
            _ => {
                let mut v = json!({"t":"db","c":w.curname(),"tab":self.tab,"call":call,"st":st,
                    "na":size[0],"nb":size[1],"nr":size[2],
                    "tok":[],"old":[],"new":[],"ret":[]});
                if let (Value::Object(a), Value::Object(b)) = (&mut v, full()) {
                    a.extend(b);
                }
                w.push(v);
            }
        }
    }
    async fn do_fetch(&self, tokens: &Tokens) -> Vec<(Token, EncryptedValue<N>)> {
        let mut res: Vec<(Token, EncryptedValue<N>)> = match &*self.store {
            Store::Sim(m) => {
                let m = m.borrow();
                tokens
                    .iter()
                    .filter_map(|t| m.get(t).map(|v| (*t, v.clone())))
                    .collect()
            }
            Store::Mem(m) => m.fetch(tokens.clone()).await.expect("mem fetch").into(),
        };
        for (t, v) in self.extra.borrow().iter() {
            if tokens.contains(t) {
                res.push((*t, v.clone()));
            }
        }
        if !self.extra.borrow().is_empty() && !res.is_empty() {
            // in any order
            let k = res.len();
            res.rotate_left(self.world.way() % k);
            if self.world.way() & 1 == 0 {
                res.reverse();
            }
        }
        res
    }
}

#[async_trait(?Send)]
impl<const N: usize> DbInterface<N> for SimDb<N> {
    type Error = SimErr;

    async fn dump_tokens(&self) -> Result<Tokens, SimErr> {
        let d = self.world.gate(format!("{}.dump", self.tab)).await;
        if d == Dec::Fail {
            self.event("dump", "fail", [0; 3], || json!({}));
            return Err(boom("dump"));
        }
        let mut res: HashSet<Token> = self.store.with(|m| m.keys().copied().collect());
        res.extend(self.extra.borrow().iter().map(|(t, _)| *t));
        let ok = if d == Dec::Go { "ok" } else { "failafter" };
        self.event("dump", ok, [0, 0, res.len()], || json!({"tok": self.toks(&res)}));
        match d {
            Dec::Go => Ok(Tokens(res)),
            Dec::FailAfter => Err(boom("dump")),
            _ => {
                self.world.die().await;
                unreachable!()
            }
        }
    }

    async fn fetch(&self, tokens: Tokens) -> Result<TokenWithEncryptedValueList<N>, SimErr> {
        let d = self.world.gate(format!("{}.fetch", self.tab)).await;
        if d == Dec::Fail {
            self.event("fetch", "fail", [tokens.len(), 0, 0], || {
                json!({"tok": self.toks(&tokens)})
            });
            return Err(boom("fetch"));
        }
        self.leaks(&mut tokens.iter().copied(), &TokenToEncryptedValueMap::default());
        let res = self.do_fetch(&tokens).await;
        let ok = if d == Dec::Go { "ok" } else { "failafter" };
        self.event("fetch", ok, [tokens.len(), 0, res.len()], || {
            json!({"tok": self.toks(&tokens), "ret": self.pairs(res.iter().cloned())})
        });
        match d {
            Dec::Go => Ok(TokenWithEncryptedValueList(res)),
            Dec::FailAfter => Err(boom("fetch")),
            _ => {
                self.world.die().await;
                unreachable!()
            }
        }
    }

    async fn upsert(
        &self,
        old: TokenToEncryptedValueMap<N>,
        new: TokenToEncryptedValueMap<N>,
    ) -> Result<TokenToEncryptedValueMap<N>, SimErr> {
        let d = self.world.gate(format!("{}.upsert", self.tab)).await;
        if d == Dec::Fail {
            self.event("upsert", "fail", [old.len(), new.len(), 0], || {
                json!({"old": self.pairs(old.clone().into_iter()), "new": self.pairs(new.clone().into_iter())})
            });
            return Err(boom("upsert"));
        }
        let (oldc, newc) = (old.clone(), new.clone());
        self.leaks(&mut std::iter::empty(), &new);
        let res: Result<TokenToEncryptedValueMap<N>, SimErr> = match &*self.store {
            Store::Mem(m) => m
                .upsert(old, new)
                .await
                .map_err(|e| SimErr(format!("mem: {e:?}"))),
            Store::Sim(m) => {
                let mut m = m.borrow_mut();
                // contract: an old value for a token that is not stored is an error
                if old.keys().any(|t| !m.contains_key(t)) {
                    Err(SimErr("missing token".into()))
                } else {
                    let mut rej = HashMap::new();
                    for (t, v) in new.0 {
                        if old.get(&t) == m.get(&t) {
                            m.insert(t, v);
                        } else {
                            rej.insert(t, m.get(&t).unwrap().clone());
                        }
                    }
                    Ok(TokenToEncryptedValueMap(rej))
                }
            }
        };
        let st = match (&res, d) {
            (Err(_), _) => "refused",
            (_, Dec::Go) => "ok",
            _ => "failafter",
        };
        let nr = res.as_ref().map(|r| r.len()).unwrap_or(0);
        self.event("upsert", st, [oldc.len(), newc.len(), nr], || {
            json!({"old": self.pairs(oldc.clone().into_iter()), "new": self.pairs(newc.clone().into_iter()),
                   "ret": res.as_ref().map(|r| self.pairs(r.clone().into_iter())).unwrap_or(json!([]))})
        });
        match d {
            Dec::Go => res,
            Dec::FailAfter => Err(boom("upsert")),
            _ => {
                self.world.die().await;
                unreachable!()
            }
        }
    }

    async fn insert(&self, values: TokenToEncryptedValueMap<N>) -> Result<(), SimErr> {
        let d = self.world.gate(format!("{}.insert", self.tab)).await;
        if d == Dec::Fail {
            self.event("insert", "fail", [0, values.len(), 0], || {
                json!({"new": self.pairs(values.clone().into_iter())})
            });
            return Err(boom("insert"));
        }
        let vc = values.clone();
        self.leaks(&mut std::iter::empty(), &values);
        let res: Result<(), SimErr> = match &*self.store {
            Store::Mem(m) => m
                .insert(values)
                .await
                .map_err(|e| SimErr(format!("mem: {e:?}"))),
            Store::Sim(m) => {
                let mut m = m.borrow_mut();
                if values.keys().any(|t| m.contains_key(t)) {
                    Err(SimErr("token already used".into()))
                } else {
                    m.extend(values.0);
                    Ok(())
                }
            }
        };
        let st = match (&res, d) {
            (Err(_), _) => "refused",
            (_, Dec::Go) => "ok",
            _ => "failafter",
        };
        self.event("insert", st, [0, vc.len(), 0], || {
            json!({"new": self.pairs(vc.clone().into_iter())})
        });
        match d {
            Dec::Go => res,
            Dec::FailAfter => Err(boom("insert")),
            _ => {
                self.world.die().await;
                unreachable!()
            }
        }
    }

    async fn delete(&self, tokens: Tokens) -> Result<(), SimErr> {
        let d = self.world.gate(format!("{}.delete", self.tab)).await;
        if d == Dec::Fail {
            self.event("delete", "fail", [tokens.len(), 0, 0], || {
                json!({"tok": self.toks(&tokens)})
            });
            return Err(boom("delete"));
        }
        let tc = tokens.clone();
        match &*self.store {
            Store::Mem(m) => m
                .delete(tokens)
                .await
                .map_err(|e| SimErr(format!("mem: {e:?}")))?,
            Store::Sim(m) => {
                let mut m = m.borrow_mut();
                for t in tokens.iter() {
                    m.remove(t);
                }
            }
        }
        self.extra.borrow_mut().retain(|(t, _)| !tc.contains(t));
        let st = if d == Dec::Go { "ok" } else { "failafter" };
        self.event("delete", st, [tc.len(), 0, 0], || json!({"tok": self.toks(&tc)}));
        match d {
            Dec::Go => Ok(()),
            Dec::FailAfter => Err(boom("delete")),
            _ => {
                self.world.die().await;
                unreachable!()
            }
        }
    }
}
