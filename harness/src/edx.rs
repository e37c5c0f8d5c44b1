//! Drives the in-memory backend directly, through the storage interface.
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use cosmian_crypto_core::bytes_ser_de::Serializable;
use cosmian_findex::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::misc::block;

type Pairs = Vec<(String, String)>;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct EdxOp {
    pub op: String,
    pub new: Pairs,
    pub old: Pairs,
    pub tok: Vec<String>,
    /// threads: number of tokens, of threads, of operations per thread
    pub n: usize,
    pub threads: usize,
    pub rounds: usize,
    pub seed: u64,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct EdxEpisode {
    pub id: String,
    pub meta: Value,
    pub ops: Vec<EdxOp>,
}

const N: usize = ENTRY_LENGTH;
const VL: usize = N + NONCE_LENGTH + MAC_LENGTH;

/// Bytes derived from a name: names only differ in a few of the first, middle or
/// last bytes.
fn fill(name: &str, out: &mut [u8]) {
    for (i, b) in out.iter_mut().enumerate() {
        *b = (i * 7) as u8;
    }
    let (n, l) = (out.len(), name.len());
    let pos = match name.bytes().map(usize::from).sum::<usize>() % 3 {
        0 => 0,
        1 => n - l,
        _ => n / 2 - l,
    };
    for (i, b) in name.bytes().enumerate() {
        out[pos + i] ^= b;
    }
}
fn tok(name: &str) -> Token {
    let mut b = [0u8; 32];
    fill(name, &mut b);
    Token::from(b)
}
fn val(name: &str) -> EncryptedValue<N> {
    let mut b = vec![0u8; VL];
    fill(name, &mut b);
    EncryptedValue::try_from(b.as_slice()).unwrap()
}

struct Names {
    t: HashMap<Vec<u8>, String>,
    v: HashMap<Vec<u8>, String>,
}
impl Names {
    fn t(&mut self, n: &str) -> Token {
        let t = tok(n);
        self.t.insert(t.to_vec(), n.to_string());
        t
    }
    fn v(&mut self, n: &str) -> EncryptedValue<N> {
        let v = val(n);
        self.v.insert(Vec::<u8>::from(&v), n.to_string());
        v
    }
    fn map(&mut self, l: &Pairs) -> TokenToEncryptedValueMap<N> {
        l.iter().map(|(t, v)| (self.t(t), self.v(v))).collect()
    }
    fn pairs(&self, l: impl Iterator<Item = (Token, EncryptedValue<N>)>) -> Value {
        let mut l: Vec<(String, String)> = l
            .map(|(t, v)| {
                (
                    self.t.get(t.as_ref() as &[u8]).cloned().unwrap_or("?".into()),
                    self.v.get(&Vec::<u8>::from(&v)).cloned().unwrap_or("?".into()),
                )
            })
            .collect();
        l.sort();
        json!(l)
    }
    fn toks(&self, l: impl Iterator<Item = Token>) -> Value {
        let mut l: Vec<String> = l.map(|t| self.t.get(t.as_ref() as &[u8]).cloned().unwrap_or("?".into())).collect();
        l.sort();
        json!(l)
    }
}

pub fn run(ep: &EdxEpisode) -> Value {
    let mut ev: Vec<Value> = vec![];
    let mut nm = Names { t: HashMap::new(), v: HashMap::new() };
    let mut db = InMemoryDb::<N>::default();
    for op in &ep.ops {
        let (mut st, mut ret, mut rtok) = ("ok".to_string(), json!([]), json!([]));
        let mut num = 0i64;
        match op.op.as_str() {
            "insert" => {
                if block(db.insert(nm.map(&op.new))).is_err() {
                    st = "err".into();
                }
            }
            "upsert" => match block(db.upsert(nm.map(&op.old), nm.map(&op.new))) {
                Ok(r) => ret = nm.pairs(r.into_iter()),
                Err(_) => st = "err".into(),
            },
            "fetch" => match block(db.fetch(op.tok.iter().map(|t| nm.t(t)).collect())) {
                Ok(r) => ret = nm.pairs(r.into_iter()),
                Err(_) => st = "err".into(),
            },
            "delete" => {
                if block(db.delete(op.tok.iter().map(|t| nm.t(t)).collect())).is_err() {
                    st = "err".into();
                }
            }
            "dump" => match block(db.dump_tokens()) {
                Ok(r) => rtok = nm.toks(r.into_iter()),
                Err(_) => st = "err".into(),
            },
            "reload" => match db.serialize().map_err(|_| ()).and_then(|b| {
                // the announced length is a lower bound at worst
                InMemoryDb::<N>::deserialize(&b).map_err(|_| ())
            }) {
                Ok(d) => db = d,
                Err(()) => st = "err".into(),
            },
            "len" => {
                num = db.len() as i64;
                st = if db.is_empty() == (num == 0) && db.size() == num as usize * (32 + VL) { "ok".into() } else { "err".into() };
            }
            "flush" => db.flush(),
            "load" => db.load(nm.map(&op.new)),
            "threads" => {
                ev.extend(threads(op));
                continue;
            }
            x => panic!("fxv machinery: unknown operation {x}"),
        }
        let content = nm.pairs(db.lock().unwrap().clone().into_iter());
        ev.push(json!({"t":"edx","op":op.op,"new":op.new,"old":op.old,"tok":op.tok,"st":st,"ret":ret,"rtok":rtok,"num":num,"all":content}));
    }
    json!({"id":ep.id,"meta":ep.meta,"drift":0,"ev":ev})
}

/// Threads working on the same group of `n` tokens, as a single register: every
/// operation is about all of the tokens.
fn threads(op: &EdxOp) -> Vec<Value> {
    let db = Arc::new(InMemoryDb::<N>::default());
    let log: Arc<Mutex<Vec<(u64, Value)>>> = Arc::default();
    let tick = Arc::new(AtomicU64::new(0));
    let toks: Arc<Vec<Token>> = Arc::new((0..op.n).map(|i| tok(&format!("t{i:05}"))).collect());
    assert_eq!(toks.iter().collect::<std::collections::HashSet<_>>().len(), op.n, "fxv machinery");
    let bar = Arc::new(std::sync::Barrier::new(op.threads));
    let hs: Vec<_> = (0..op.threads)
        .map(|k| {
            let (db, log, tick, toks, bar, op) = (db.clone(), log.clone(), tick.clone(), toks.clone(), bar.clone(), op.clone());
            std::thread::spawn(move || {
                let db = InMemoryHandle(db);
                let mut x = op.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (k as u64 + 1).wrapping_mul(0xD1B54A32D192ED03);
                let mut rnd = move |n: u64| {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    (x >> 20) % n
                };
                let names: HashMap<Vec<u8>, String> = (0..op.threads)
                    .flat_map(|t| (0..op.rounds).map(move |r| format!("v{t}x{r:03}")))
                    .map(|n| (Vec::<u8>::from(&val(&n)), n))
                    .collect();
                let group = |l: &mut dyn Iterator<Item = EncryptedValue<N>>, want: usize| -> String {
                    let mut m: HashMap<String, usize> = HashMap::new();
                    for v in l {
                        *m.entry(names.get(&Vec::<u8>::from(&v)).cloned().unwrap_or("?".into())).or_default() += 1;
                    }
                    match m.len() {
                        0 => "-".into(),
                        1 if *m.values().next().unwrap() == want => m.keys().next().unwrap().clone(),
                        _ => "mixed".into(),
                    }
                };
                let mut last = "-".to_string();
                bar.wait();
                for r in 0..op.rounds {
                    let mine = format!("v{k}x{r:03}");
                    let kind = ["fetch", "fetch", "upsert", "upsert", "upsert", "delete", "insert", "dump"][rnd(8) as usize];
                    let old = if kind == "upsert" { last.clone() } else { "-".into() };
                    let new = || -> TokenToEncryptedValueMap<N> { toks.iter().map(|t| (*t, val(&mine))).collect() };
                    let oldm: TokenToEncryptedValueMap<N> =
                        if old == "-" { Default::default() } else { toks.iter().map(|t| (*t, val(&old))).collect() };
                    let newm = new();
                    let all: Tokens = toks.iter().copied().collect();
                    let a = tick.fetch_add(1, Ordering::SeqCst);
                    let ret = match kind {
                        "fetch" => match block(db.0.fetch(all)) {
                            Ok(l) => {
                                let b = tick.fetch_add(1, Ordering::SeqCst);
                                let g = group(&mut l.iter().map(|(_, v)| v.clone()), op.n);
                                if g != "mixed" {
                                    last = g.clone();
                                }
                                (b, g)
                            }
                            Err(_) => (tick.fetch_add(1, Ordering::SeqCst), "err".into()),
                        },
                        "upsert" => match block(db.0.upsert(oldm, newm)) {
                            Ok(l) => {
                                let b = tick.fetch_add(1, Ordering::SeqCst);
                                let g = group(&mut l.values().cloned(), op.n);
                                if g == "-" {
                                    last = mine.clone();
                                    (b, "ok".into())
                                } else {
                                    if g != "mixed" {
                                        last = g.clone();
                                    }
                                    (b, g)
                                }
                            }
                            Err(_) => {
                                last = "-".into();
                                (tick.fetch_add(1, Ordering::SeqCst), "err".into())
                            }
                        },
                        "insert" => {
                            let ok = block(db.0.insert(newm)).is_ok();
                            if ok {
                                last = mine.clone();
                            }
                            (tick.fetch_add(1, Ordering::SeqCst), if ok { "ok".into() } else { "err".to_string() })
                        }
                        "delete" => {
                            let ok = block(db.0.delete(all)).is_ok();
                            last = "-".into();
                            (tick.fetch_add(1, Ordering::SeqCst), if ok { "ok".into() } else { "err".to_string() })
                        }
                        _ => match block(db.0.dump_tokens()) {
                            Ok(l) => (tick.fetch_add(1, Ordering::SeqCst), if l.is_empty() { "none".into() } else if l.len() == op.n { "all".into() } else { "mixed".to_string() }),
                            Err(_) => (tick.fetch_add(1, Ordering::SeqCst), "err".into()),
                        },
                    };
                    let mut l = log.lock().unwrap();
                    l.push((a, json!({"t":"inv","c":k,"op":kind,"old":old,"new":mine})));
                    l.push((ret.0, json!({"t":"ret","c":k,"ret":ret.1})));
                }
            })
        })
        .collect();
    let mut ok = true;
    for h in hs {
        ok &= h.join().is_ok();
    }
    let mut l = std::mem::take(&mut *log.lock().unwrap());
    l.sort_by_key(|x| x.0);
    let mut l: Vec<Value> = l.into_iter().map(|x| x.1).collect();
    if !ok {
        l.push(json!({"t":"die"}));
    }
    l
}

struct InMemoryHandle(Arc<InMemoryDb<N>>);
