//! Abstract operations and their execution through the public API.
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

use cosmian_crypto_core::FixedSizeCBytes;
use cosmian_findex::macros::tiny_keccak::{Hasher, Sha3};
use cosmian_findex::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::world::*;

pub type Fx = Findex<
    SimErr,
    EntryTable<ENTRY_LENGTH, SimDb<ENTRY_LENGTH>>,
    ChainTable<LINK_LENGTH, SimDb<LINK_LENGTH>>,
>;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Fault {
    /// index of the database call (within the operation) that is hit
    pub at: i64,
    pub d: String,
    /// how many consecutive calls from `at` are hit (0 = all)
    pub n: u64,
    /// only hit calls of this kind (e.g. "ct.insert"); "" = any
    pub kind: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Op {
    pub op: String,
    /// key and label ids
    pub cred: Vec<String>,
    pub new: Vec<String>,
    #[serde(rename = "as")]
    pub assoc: Vec<(String, String, String)>,
    pub kws: Vec<String>,
    /// search: number of callback invocations after which to stop (0: never stop);
    pub stop: i64,
    /// search: the callback fails at this invocation (1-based; 0: never)
    pub interr: i64,
    pub rate: f64,
    /// compact: data ids dropped by the filter
    pub drop: Vec<String>,
    /// compact: ids added by the filter that were never in its input
    pub extra: Vec<String>,
    /// compact: the filter fails at this invocation (1-based; 0: never)
    pub flterr: i64,
    pub fault: Option<Fault>,
    /// instance to use
    pub inst: usize,
    /// free text
    pub arg: String,
    pub n: i64,
}

pub fn user_key_bytes(id: &str) -> [u8; USER_KEY_LENGTH] {
    let mut b = [0u8; USER_KEY_LENGTH];
    if let Some(h) = id.strip_prefix("hex:") {
        for i in 0..USER_KEY_LENGTH {
            b[i] = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap();
        }
    } else {
        let mut out = [0u8; 32];
        let mut h = Sha3::v256();
        h.update(b"fxv user key ");
        h.update(id.as_bytes());
        h.finalize(&mut out);
        b.copy_from_slice(&out[..USER_KEY_LENGTH]);
    }
    b
}

pub fn user_key(id: &str) -> UserKey {
    UserKey::try_from_bytes(user_key_bytes(id)).unwrap()
}

pub type Fut = Pin<Box<dyn Future<Output = Value>>>;

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

pub fn iv_json(w: &World, v: &IndexedValue<Keyword, Data>) -> Value {
    match v {
        IndexedValue::Pointer(k) => json!(["p", w.name(k)]),
        IndexedValue::Data(d) => json!(["d", w.name(d)]),
    }
}

/// The byte vectors of the API, through any of their conversions.
fn bytes<T: From<Vec<u8>> + for<'a> From<&'a [u8]> + for<'a> From<&'a str>>(way: usize, b: Vec<u8>) -> T {
    match (way % 3, std::str::from_utf8(&b)) {
        (0, Ok(s)) => T::from(s),
        (1, _) => T::from(&b[..]),
        _ => T::from(b),
    }
}

fn keywords(way: usize, l: HashSet<Keyword>) -> Keywords {
    match way % 3 {
        0 => l.into(),
        1 => l.into_iter().collect(),
        _ => {
            let mut k = Keywords::from(HashSet::new());
            k.extend(l);
            k
        }
    }
}

/// The argument of additions and deletions, through any of its conversions.
pub fn assoc_map(w: &World, a: &[(String, String, String)]) -> IndexedValueToKeywordsMap {
    let way = w.way();
    let mut m: HashMap<IndexedValue<Keyword, Data>, HashSet<Keyword>> = HashMap::new();
    for (i, (k, t, v)) in a.iter().enumerate() {
        if t == "none" {
            continue;
        }
        let iv = if t == "p" {
            IndexedValue::Pointer(bytes(way + i, w.b(v)))
        } else {
            IndexedValue::Data(bytes(way + i, w.b(v)))
        };
        let e = m.entry(iv).or_default();
        // an empty keyword id means "indexed for no keyword at all"
        if k != "-" {
            e.insert(bytes(way + i + 1, w.b(k)));
        }
    }
    let kw = |(v, k): (IndexedValue<Keyword, Data>, HashSet<Keyword>)| (v, keywords(way / 5, k));
    match way % 5 {
        0 => m.into(),
        1 => m.into_iter().map(kw).collect::<HashMap<_, _>>().into(),
        2 => m.into_iter().map(kw).collect(),
        3 => m.into_iter().collect(),
        _ => {
            let l: Vec<_> = m.into_iter().map(kw).collect();
            match <[_; 1]>::try_from(l).map_err(<[_; 2]>::try_from) {
                Ok(l) => l.into(),
                Err(Ok(l)) => l.into(),
                Err(Err(l)) => l.into_iter().collect(),
            }
        }
    }
}

fn err(e: impl std::fmt::Display) -> Value {
    json!({"st":"err","msg":e.to_string().chars().take(160).collect::<String>()})
}

pub fn start(w: Rc<World>, fx: Rc<Fx>, op: Op) -> Fut {
    Box::pin(async move {
        let key = user_key(&op.cred[0]);
        let label = Label::from(w.b(&op.cred[1]));
        match op.op.as_str() {
            "add" | "del" => {
                let m = assoc_map(&w, &op.assoc);
                let r = if op.op == "add" {
                    fx.add(&key, &label, m).await
                } else {
                    fx.delete(&key, &label, m).await
                };
                match r {
                    Ok(k) => {
                        let l = sorted(k.iter().map(|k| w.name(k)).collect());
                        json!({"st":"ok","new":l})
                    }
                    Err(e) => err(e),
                }
            }
            "search" => {
                let way = w.way();
                let kws = keywords(way, op.kws.iter().map(|k| bytes(way / 3, w.b(k))).collect());
                let n = Rc::new(Cell::new(0i64));
                let (w2, c, op2) = (w.clone(), w.cur.get(), op.clone());
                let cb = move |res: HashMap<Keyword, HashSet<IndexedValue<Keyword, Data>>>| {
                    let (n, w, op) = (n.clone(), w2.clone(), op2.clone());
                    async move {
                        n.set(n.get() + 1);
                        let mut fed: Vec<Value> = res
                            .iter()
                            .map(|(k, vs)| {
                                let mut l: Vec<Value> = vs.iter().map(|v| iv_json(&w, v)).collect();
                                l.sort_by_key(|v| v.to_string());
                                json!([w.name(k), l])
                            })
                            .collect();
                        fed.sort_by_key(|v| v.to_string());
                        let ans = if op.interr != 0 && op.interr == n.get() {
                            "err"
                        } else if op.stop != 0 && n.get() >= op.stop {
                            "stop"
                        } else {
                            "go"
                        };
                        w.push(json!({"t":"int","c":w.cname(c),"fed":fed,"ans":ans}));
                        w.callback("int").await?;
                        match ans {
                            "err" => Err("callback says no".to_string()),
                            "stop" => Ok(true),
                            _ => Ok(false),
                        }
                    }
                };
                match fx.search(&key, &label, kws, &cb).await {
                    Ok(r) => {
                        let mut l: Vec<Value> = r
                            .iter()
                            .map(|(k, ds)| {
                                json!([w.name(k), sorted(ds.iter().map(|d| w.name(d)).collect())])
                            })
                            .collect();
                        l.sort_by_key(|v| v.to_string());
                        json!({"st":"ok","out":l})
                    }
                    Err(e) => err(e),
                }
            }
            "compact" => {
                let nk = user_key(&op.new[0]);
                let nl = Label::from(w.b(&op.new[1]));
                let drop: HashSet<Data> = op.drop.iter().map(|d| Data::from(w.b(d))).collect();
                let extra: HashSet<Data> = op.extra.iter().map(|d| Data::from(w.b(d))).collect();
                let (w2, c) = (w.clone(), w.cur.get());
                let n = Rc::new(Cell::new(0i64));
                let flterr = op.flterr;
                let cb = move |d: HashSet<Data>| {
                    let (w, drop, extra, n) = (w2.clone(), drop.clone(), extra.clone(), n.clone());
                    async move {
                        n.set(n.get() + 1);
                        let input = sorted(d.iter().map(|d| w.name(d)).collect());
                        let bad = flterr != 0 && n.get() == flterr;
                        w.push(json!({"t":"flt","c":w.cname(c),"in":input,"ans":if bad {"err"} else {"ok"}}));
                        w.callback("flt").await?;
                        if bad {
                            return Err("filter says no".to_string());
                        }
                        let mut r: HashSet<Data> =
                            d.into_iter().filter(|x| !drop.contains(x)).collect();
                        r.extend(extra.iter().cloned());
                        Ok(r)
                    }
                };
                match fx.compact(&key, &nk, &label, &nl, op.rate, &cb).await {
                    Ok(()) => json!({"st":"ok"}),
                    Err(e) => err(e),
                }
            }
            o => panic!("unknown operation {o}"),
        }
    })
}

/// Everything a run of an episode shares.
pub struct Env {
    pub w: Rc<World>,
    pub et: SimDb<ENTRY_LENGTH>,
    pub ct: SimDb<LINK_LENGTH>,
    pub inst: RefCell<Vec<Rc<Fx>>>,
}

impl Env {
    pub fn new(mem: bool) -> Self {
        Self::with(World::new(), mem)
    }
    pub fn with(w: Rc<World>, mem: bool) -> Self {
        let et = SimDb::new(&w, "et", mem);
        let ct = SimDb::new(&w, "ct", mem);
        Env { w, et, ct, inst: RefCell::default() }
    }
    pub fn fx(&self, i: usize) -> Rc<Fx> {
        let mut l = self.inst.borrow_mut();
        while l.len() <= i {
            l.push(Rc::new(Findex::new(
                EntryTable::setup(self.et.clone()),
                ChainTable::setup(self.ct.clone()),
            )));
        }
        l[i].clone()
    }
    pub fn snap(&self, tag: &str, full: bool) {
        let (a, b) = (self.et.store.snapshot(), self.ct.store.snapshot());
        let f = |m: &std::collections::BTreeMap<Vec<u8>, Vec<u8>>| {
            let mut h = Sha3::v256();
            for (k, v) in m {
                h.update(k);
                h.update(v);
            }
            let mut out = [0u8; 32];
            h.finalize(&mut out);
            self.w.digests.borrow_mut().id(&out)
        };
        let l = |m: &std::collections::BTreeMap<Vec<u8>, Vec<u8>>| -> Vec<Value> {
            if !full {
                return vec![];
            }
            let mut l: Vec<Value> = m
                .iter()
                .map(|(t, v)| {
                    json!([
                        self.w.tokens.borrow_mut().id(t),
                        self.w.values.borrow_mut().id(&v[NONCE_LENGTH..])
                    ])
                })
                .collect();
            l.sort_by_key(|v| v.to_string());
            l
        };
        self.w.push(json!({"t":"snap","tag":tag,"et":a.len(),"ct":b.len(),
            "dig":format!("{}/{}", f(&a), f(&b)),"etl":l(&a),"ctl":l(&b)}));
    }
}
