//! Harness-level operations on the tables, and an independent reader of the
//! documented storage layout.
use std::collections::HashMap;

use cosmian_crypto_core::bytes_ser_de::Serializable;
use cosmian_crypto_core::kdf::{Hasher as _, Shake};
use cosmian_crypto_core::{Aes256Gcm, Dem, FixedSizeCBytes, Instantiable, Nonce, SymmetricKey};
use cosmian_findex::macros::tiny_keccak::{Hasher, IntoXof, Kmac, Sha3, Xof};
use cosmian_findex::*;
use serde_json::{json, Value};

use crate::ops::*;
use crate::run::unhex;
use crate::world::*;

// ------------------------------------------------------- independent crypto --
fn kdf(parts: &[&[u8]]) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut h = Shake::v256();
    for p in parts {
        h.update(p);
    }
    h.finalize(&mut out);
    out
}
fn kmac(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut k = Kmac::v256(key, b"");
    for p in parts {
        k.update(p);
    }
    let mut out = [0u8; 32];
    k.into_xof().squeeze(&mut out);
    out
}
fn sha3(b: &[u8]) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut h = Sha3::v256();
    h.update(b);
    h.finalize(&mut out);
    out
}
const ET_INFO: &[u8] = b"Entry Table key derivation info.";
const CT_INFO: &[u8] = b"Chain Table key derivation info.";

fn open(key: &[u8; 32], v: &[u8]) -> Option<Vec<u8>> {
    // nonce || ciphertext || tag
    let key = SymmetricKey::<32>::try_from_bytes(*key).ok()?;
    let nonce = Nonce::<12>::try_from_slice(&v[..12]).ok()?;
    Aes256Gcm::new(&key).decrypt(&nonce, &v[12..], None).ok()
}

pub struct Decoded {
    pub token: [u8; 32],
    pub last: Vec<u8>,
    pub hash: Vec<u8>,
    pub chain: Vec<[u8; 32]>,
    pub ct_key: [u8; 32],
}

pub fn et_token(cred: &[String], w: &World, kw: &str) -> ([u8; 32], [u8; 32]) {
    let seed = user_key_bytes(&cred[0]);
    let tk = kdf(&[&seed, ET_INFO, b"KMAC key"]);
    let dk = kdf(&[&seed, ET_INFO, b"DEM key"]);
    let h = sha3(&w.b(kw));
    (kmac(&tk, &[&h, &w.b(&cred[1])]), dk)
}

/// Reads the entry of the keyword, following the documented layout.
pub fn entry(env: &Env, cred: &[String], kw: &str) -> Option<Result<Decoded, String>> {
    let (token, dk) = et_token(cred, &env.w, kw);
    let et = env.et.store.snapshot();
    let v = et.get(token.as_slice())?;
    let Some(p) = open(&dk, v) else { return Some(Err("entry does not decrypt".into())) };
    if p.len() != 80 {
        return Some(Err(format!("entry of {} bytes", p.len())));
    }
    let (last, seed, hash) = (p[..32].to_vec(), &p[32..48], p[48..].to_vec());
    let ctk = kdf(&[seed, CT_INFO, b"KMAC key"]);
    let ct_key = kdf(&[seed, CT_INFO, b"DEM key"]);
    let mut chain = vec![kmac(&ctk, &[&hash, CT_INFO])];
    while chain.last().unwrap().as_slice() != last.as_slice() {
        if chain.len() > 20000 {
            return Some(Err("the chain does not reach the last token".into()));
        }
        let t = kmac(&ctk, &[chain.last().unwrap(), CT_INFO]);
        chain.push(t);
    }
    Some(Ok(Decoded { token, last, hash, chain, ct_key }))
}

/// Emits what is stored for keywords, decoded by the independent reader.
pub fn layout(env: &Env, op: &Op) {
    for kw in &op.kws {
        let e = entry(env, &op.cred, kw);
        let ct = env.ct.store.snapshot();
        let v = match e {
            None => json!({"t":"layout","cred":op.cred.join("/"),"kw":kw,"st":"absent","hash":true,"lines":[]}),
            Some(Err(m)) => json!({"t":"layout","cred":op.cred.join("/"),"kw":kw,"st":m,"hash":true,"lines":[]}),
            Some(Ok(d)) => {
                let mut st = "ok".to_string();
                let lines: Vec<Value> = d
                    .chain
                    .iter()
                    .filter_map(|t| {
                        let v = ct.get(t.as_slice())?;
                        match open(&d.ct_key, v) {
                            Some(p) if p.len() == 86 => {
                                Some(json!([p[0], (0..5).map(|i| p[1 + 17 * i..18 + 17 * i].to_vec()).collect::<Vec<_>>()]))
                            }
                            Some(p) => {
                                st = format!("line of {} bytes", p.len());
                                None
                            }
                            None => {
                                st = "line does not decrypt".into();
                                None
                            }
                        }
                    })
                    .collect();
                json!({"t":"layout","cred":op.cred.join("/"),"kw":kw,"st":st,
                       "hash": d.hash == sha3(&env.w.b(kw)).to_vec(),"lines":lines})
            }
        };
        env.w.push(v);
    }
}

// -------------------------------------------------------------- tampering --
fn put<const N: usize>(s: &Store<N>, t: &[u8], v: &[u8]) {
    let tok = Token::try_from(t).unwrap();
    let val = EncryptedValue::<N>::try_from(v).unwrap();
    s.with(|m| m.insert(tok, val));
}

/// Alters the line `n` (0: the entry, i > 0: ith line of the chain) of the
/// keyword `kws[0]` of `cred`; "flip": one bit of byte `stop`; "alien": replaced
/// by the same line of `kws[1]` of `new`; "cross": bytes of the other table.
pub fn tamper(env: &Env, op: &Op) {
    let mut done = false;
    if let Some(Ok(d)) = entry(env, &op.cred, &op.kws[0]) {
        let (et, ct) = (env.et.store.snapshot(), env.ct.store.snapshot());
        let line = |d: &Decoded, n: i64| -> Option<(Vec<u8>, Vec<u8>)> {
            if n == 0 {
                et.get(d.token.as_slice()).map(|v| (d.token.to_vec(), v.clone()))
            } else {
                let t = d.chain[(n as usize - 1) % d.chain.len()];
                ct.get(t.as_slice()).map(|v| (t.to_vec(), v.clone()))
            }
        };
        let new = match op.arg.as_str() {
            "flip" => line(&d, op.n).map(|(t, mut v)| {
                let i = op.stop as usize % v.len();
                v[i] ^= 1 << (op.stop % 8);
                (t, v)
            }),
            "alien" => match entry(env, &op.new, &op.kws[1]) {
                Some(Ok(o)) => line(&d, op.n).and_then(|(t, _)| line(&o, op.n).map(|(_, v)| (t, v))),
                _ => None,
            },
            // by the line `m` of `kws[1]` of `new`
            m if m.starts_with("move:") => match entry(env, &op.new, &op.kws[1]) {
                Some(Ok(o)) => line(&d, op.n).and_then(|(t, _)| line(&o, m[5..].parse().unwrap()).map(|(_, v)| (t, v))),
                _ => None,
            },
            _ => line(&d, op.n).and_then(|(t, v)| {
                line(&d, if op.n == 0 { 1 } else { 0 }).map(|(_, mut o)| {
                    o.resize(v.len(), 0);
                    (t, o)
                })
            }),
        };
        if let Some((t, v)) = new {
            if op.n == 0 {
                put(&env.et.store, &t, &v);
            } else {
                put(&env.ct.store, &t, &v);
            }
            done = true;
        }
    }
    env.w.push(json!({"t":"tamper","cred":op.cred.join("/"),"kw":op.kws[0],"mode":op.arg,
        "tab": if op.n == 0 {"et"} else {"ct"},"done":done}));
}

/// Which sizes are accepted when reading tokens and encrypted values.
pub fn sizes(env: &Env) {
    let buf: Vec<u8> = (0..300).map(|i| (i * 7 + 3) as u8).collect();
    let mut acc: HashMap<&str, Vec<usize>> = HashMap::new();
    let mut same = true;
    for n in 0..buf.len() {
        let b = &buf[..n];
        if let Ok(v) = EncryptedValue::<ENTRY_LENGTH>::try_from(b) {
            same &= Vec::<u8>::from(&v) == b;
            acc.entry("entry").or_default().push(n);
        }
        if let Ok(v) = EncryptedValue::<LINK_LENGTH>::try_from(b) {
            same &= Vec::<u8>::from(&v) == b;
            acc.entry("link").or_default().push(n);
        }
        if let Ok(t) = Token::try_from(b) {
            same &= t.to_vec() == b;
            acc.entry("token").or_default().push(n);
        }
    }
    let g = |k: &str| acc.get(k).cloned().unwrap_or_default();
    env.w.push(json!({"t":"sizes","entry":g("entry"),"link":g("link"),"token":g("token"),"same":same}));
}

// ----------------------------------------------------------- save and load --
fn reload_one<const N: usize>(s: &Store<N>) -> (bool, String) {
    let Store::Mem(db) = s else { return (true, "not in memory".into()) };
    let before = s.snapshot();
    let bytes = match db.serialize() {
        Ok(b) => b,
        Err(_) => return (false, "cannot be serialized".into()),
    };
    match InMemoryDb::<N>::deserialize(&bytes) {
        Ok(l) => {
            let loaded = l.lock().unwrap().clone();
            *db.lock().unwrap() = loaded;
            (before == s.snapshot(), "loaded".into())
        }
        Err(_) => (false, "cannot be loaded".into()),
    }
}
/// Saves and loads the tables of the in-memory backend.
pub fn reload(env: &Env) {
    let (a, ma) = reload_one(&env.et.store);
    let (b, mb) = reload_one(&env.ct.store);
    env.w.push(json!({"t":"reload","same":a && b,"msg":format!("{ma}, {mb}")}));
}

fn tab<const N: usize>(s: &Store<N>) -> Value {
    json!(s.snapshot().iter().map(|(k, v)| json!([hex(k), hex(v)])).collect::<Vec<_>>())
}
fn fill<const N: usize>(s: &Store<N>, v: &Value) {
    for l in v.as_array().unwrap() {
        put(s, &unhex(l[0].as_str().unwrap()), &unhex(l[1].as_str().unwrap()));
    }
}
/// Writes the tables in a file.
pub fn save(env: &Env, op: &Op) {
    let v = json!({"et":tab(&env.et.store),"ct":tab(&env.ct.store)});
    std::fs::write(&op.arg, v.to_string()).unwrap();
}
/// Adds the lines of a file to the tables.
pub fn load(env: &Env, op: &Op) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&op.arg).unwrap()).unwrap();
    fill(&env.et.store, &v["et"]);
    fill(&env.ct.store, &v["ct"]);
    env.w.push(json!({"t":"load"}));
}

/// Adds the lines of another replica (those that are already there too if `bag`); tells how many tokens get one more value.
pub fn merge<const N: usize>(a: &SimDb<N>, b: &SimDb<N>, bag: bool) -> usize {
    let mut n = 0;
    let l: Vec<_> = b.store.with(|m| m.iter().map(|(t, v)| (*t, v.clone())).collect());
    for (t, v) in l {
        let old = a.store.with(|m| m.get(&t).cloned());
        match old {
            None => {
                a.store.with(|m| m.insert(t, v));
            }
            Some(o) => {
                let mut x = a.extra.borrow_mut();
                if bag || o != v && !x.contains(&(t, v.clone())) {
                    x.push((t, v));
                    n += 1;
                }
            }
        }
    }
    n
}
/// Copies the tables of another replica.
pub fn copy(a: &Env, b: &Env) {
    fn go<const N: usize>(a: &SimDb<N>, b: &SimDb<N>) {
        let l: Vec<_> = b.store.with(|m| m.iter().map(|(t, v)| (*t, v.clone())).collect());
        a.store.with(|m| m.extend(l));
    }
    go(&a.et, &b.et);
    go(&a.ct, &b.ct);
}

// ------------------------------------------------------- deep pointer graphs --
pub fn block<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}

/// Searches a large graph of pointers with an ordinary stack: only counts are
/// recorded.
pub fn deep(env: &Env, op: &Op) {
    let (n, arg, cred) = (op.n as usize, op.arg.clone(), op.cred.clone());
    let label = env.w.b(&cred[1]);
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let fx = Findex::new(
            EntryTable::setup(InMemoryDb::<ENTRY_LENGTH>::default()),
            ChainTable::setup(InMemoryDb::<LINK_LENGTH>::default()),
        );
        let (key, label) = (user_key(&cred[0]), Label::from(label));
        let kw = |i: usize| Keyword::from(format!("node {i}").into_bytes());
        let mut m: HashMap<IndexedValue<Keyword, Data>, std::collections::HashSet<Keyword>> = HashMap::new();
        let mut point = |a: usize, b: usize| {
            m.entry(IndexedValue::Pointer(kw(b))).or_default().insert(kw(a));
        };
        match arg.as_str() {
            "star" => (1..n).for_each(|i| {
                point(0, i);
                point(i, 0);
            }),
            _ => {
                (1..n).for_each(|i| point(i - 1, i));
                if arg == "loop" {
                    point(n - 1, 0);
                }
            }
        }
        let d = |s: &str| IndexedValue::Data(Data::from(s.as_bytes().to_vec()));
        m.entry(d("first")).or_default().insert(kw(0));
        m.entry(d("middle")).or_default().insert(kw(n / 2));
        m.entry(d("last")).or_default().insert(kw(n - 1));
        let new = block(fx.add(&key, &label, m.into())).map(|k| k.len()).unwrap_or(0);
        let fed = std::sync::atomic::AtomicUsize::new(0);
        let it = std::sync::atomic::AtomicUsize::new(0);
        let cb = |r: HashMap<Keyword, std::collections::HashSet<IndexedValue<Keyword, Data>>>| {
            fed.fetch_add(r.len(), std::sync::atomic::Ordering::Relaxed);
            it.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            async { Ok::<_, String>(false) }
        };
        let mut facts = vec![("depth.new", new, n)];
        for (s, want) in [(0, 3), (n - 1, if arg == "line" { 1 } else { 3 })] {
            let r = block(fx.search(&key, &label, std::iter::once(kw(s)).collect(), &cb));
            let got = r.map(|r| r.iter().next().map(|(_, d)| d.len()).unwrap_or(0)).unwrap_or(usize::MAX >> 40);
            facts.push(("depth.out", got, want));
        }
        facts
    });
    for (name, got, want) in t.unwrap().join().unwrap_or_else(|_| vec![("depth.panic", 1, 0)]) {
        env.w.push(json!({"t":"fact","name":name,"got":got,"want":want}));
    }
}

/// Generates keys and labels.
pub fn keygen(env: &Env, op: &Op) {
    use cosmian_crypto_core::reexport::rand_core::SeedableRng;
    let mut seen = std::collections::HashSet::new();
    let mut n = 0;
    for i in 0..op.n as usize {
        let k = env.fx(1 + i % 5).keygen();
        n += usize::from(seen.insert(cosmian_crypto_core::RandomFixedSizeCBytes::as_bytes(&k).to_vec()));
        let mut rng = cosmian_crypto_core::CsRng::from_entropy();
        n += usize::from(seen.insert(Label::random(&mut rng).to_vec()));
    }
    env.w.push(json!({"t":"keygen","got":n,"want":2 * op.n}));
}
