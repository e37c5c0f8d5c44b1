//! Large indexes: programs over groups of many keywords having the same values,
//! of which only counts are recorded. TraceMass.tla computes what these should be.
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::rc::Rc;

use async_trait::async_trait;
use cosmian_findex::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::misc::block;
use crate::ops::{user_key, Env, Op};

use crate::world::SimErr;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
struct Group {
    /// number of keywords
    n: usize,
    /// length of the values
    len: usize,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
struct Step {
    o: String,
    g: usize,
    lo: usize,
    hi: usize,
    rate: f64,
    times: usize,
    drawn: bool,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
struct Prog {
    groups: Vec<Group>,
    steps: Vec<Step>,
    mem: bool,
}

/// Everything a table received.
#[derive(Default)]
struct Seen {
    sent: usize,
    nonces: HashSet<[u8; NONCE_LENGTH]>,
    texts: HashSet<[u8; 16]>,
    /// lines stored under a token that had none
    fresh: usize,
    tokens: HashSet<Token>,
}
enum Kind<const N: usize> {
    Map(RefCell<HashMap<Token, EncryptedValue<N>>>),
    Mem(InMemoryDb<N>),
}
struct Mass<const N: usize> {
    kind: Kind<N>,
    seen: RefCell<Seen>,
}
#[derive(Clone)]
struct MassDb<const N: usize>(Rc<Mass<N>>);

impl<const N: usize> MassDb<N> {
    fn new(mem: bool) -> Self {
        let kind = if mem { Kind::Mem(InMemoryDb::default()) } else { Kind::Map(RefCell::default()) };
        MassDb(Rc::new(Mass { kind, seen: RefCell::default() }))
    }
    fn lines(&self) -> HashMap<Token, EncryptedValue<N>> {
        match &self.0.kind {
            Kind::Map(m) => m.borrow().clone(),
            Kind::Mem(m) => m.lock().unwrap().clone().into(),
        }
    }
    fn see(&self, m: &HashMap<Token, EncryptedValue<N>>, insert: bool) {
        let mut s = self.0.seen.borrow_mut();
        for (t, v) in m {
            s.sent += 1;
            s.nonces.insert(v.nonce.0);
            s.texts.insert(v.ciphertext[..16].try_into().unwrap());
            if insert {
                s.fresh += 1;
                s.tokens.insert(*t);
            }
        }
    }
}
fn err<E: std::fmt::Display>(e: E) -> SimErr {
    SimErr(e.to_string())
}
#[async_trait(?Send)]
impl<const N: usize> DbInterface<N> for MassDb<N> {
    type Error = SimErr;
    async fn dump_tokens(&self) -> Result<Tokens, SimErr> {
        match &self.0.kind {
            Kind::Map(m) => Ok(m.borrow().keys().copied().collect()),
            Kind::Mem(m) => m.dump_tokens().await.map_err(err),
        }
    }
    async fn fetch(&self, tokens: Tokens) -> Result<TokenWithEncryptedValueList<N>, SimErr> {
        match &self.0.kind {
            Kind::Map(m) => {
                let m = m.borrow();
                Ok(tokens.into_iter().filter_map(|t| m.get(&t).map(|v| (t, v.clone()))).collect())
            }
            Kind::Mem(m) => m.fetch(tokens).await.map_err(err),
        }
    }
    async fn upsert(
        &self,
        old: TokenToEncryptedValueMap<N>,
        new: TokenToEncryptedValueMap<N>,
    ) -> Result<TokenToEncryptedValueMap<N>, SimErr> {
        self.see(&new, false);
        match &self.0.kind {
            Kind::Map(m) => {
                let mut m = m.borrow_mut();
                if old.keys().any(|t| !m.contains_key(t)) {
                    return Err(SimErr("missing line".into()));
                }
                let mut rej = HashMap::new();
                for (t, v) in new {
                    if m.get(&t) == old.get(&t) {
                        m.insert(t, v);
                    } else {
                        rej.insert(t, m[&t].clone());
                    }
                }
                Ok(rej.into())
            }
            Kind::Mem(m) => m.upsert(old, new).await.map_err(err),
        }
    }
    async fn insert(&self, values: TokenToEncryptedValueMap<N>) -> Result<(), SimErr> {
        self.see(&values, true);
        match &self.0.kind {
            Kind::Map(m) => {
                let mut m = m.borrow_mut();
                if values.keys().any(|t| m.contains_key(t)) {
                    return Err(SimErr("used line".into()));
                }
                m.extend(values);
                Ok(())
            }
            Kind::Mem(m) => m.insert(values).await.map_err(err),
        }
    }
    async fn delete(&self, tokens: Tokens) -> Result<(), SimErr> {
        match &self.0.kind {
            Kind::Map(m) => {
                let mut m = m.borrow_mut();
                tokens.iter().for_each(|t| {
                    m.remove(t);
                });
                Ok(())
            }
            Kind::Mem(m) => m.delete(tokens).await.map_err(err),
        }
    }
}

fn kw(g: usize, i: usize) -> Keyword {
    Keyword::from(format!("group {g} keyword {i}").into_bytes())
}
fn data(g: usize, v: usize, len: usize) -> Data {
    let mut b = format!("{g}.{v}.").into_bytes();
    assert!(b.len() <= len, "fxv machinery: short value");
    b.resize(len, b'x');
    Data::from(b)
}
/// the value that has these bytes (usize::MAX: none)
fn index(groups: &[Group], d: &Data) -> (usize, usize) {
    let s = String::from_utf8_lossy(&d[..d.len().min(30)]).to_string();
    let p: Vec<Option<usize>> = s.split('.').take(2).map(|x| x.parse().ok()).collect();
    if let [Some(g), Some(v)] = p[..] {
        if g < groups.len() && data(g, v, groups[g].len) == *d {
            return (g, v);
        }
    }
    (usize::MAX, usize::MAX)
}
fn ranges(s: &BTreeSet<usize>) -> Vec<[usize; 2]> {
    let mut r: Vec<[usize; 2]> = vec![];
    for &v in s {
        match r.last_mut() {
            Some(l) if l[1] + 1 == v => l[1] = v,
            _ => r.push([v, v]),
        }
    }
    r
}

pub fn mass(env: &Env, op: &Op) {
    let p: Prog = serde_json::from_str(&op.arg).expect("fxv machinery: program");
    let (et, ct) = (MassDb::<ENTRY_LENGTH>::new(p.mem), MassDb::<LINK_LENGTH>::new(p.mem));
    let fxs: Vec<_> = (0..3).map(|_| Findex::new(EntryTable::setup(et.clone()), ChainTable::setup(ct.clone()))).collect();
    let label = |c: usize| Label::from(format!("label {c}").into_bytes());
    let mut cred = 0;
    let mut turn = 0;
    env.w.push(json!({"t":"groups","g":p.groups.iter().map(|g| json!({"n":g.n,"len":g.len})).collect::<Vec<_>>()}));
    for s in &p.steps {
        for time in 1..=s.times.max(1) {
            turn += 1;
            crate::TICK.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let fx = &fxs[turn % fxs.len()];
            let keyof = |c: usize| user_key(&format!("K{}", c / 2));
            let mut ev = json!({"t":"mass","o":s.o,"g":s.g + 1,"lo":s.lo,"hi":s.hi,"full":s.rate >= 1.0,"drawn":s.drawn && time == s.times.max(1)});
            let mut o: HashMap<&str, Value> = HashMap::new();
            let (et0, ct0) = (et.lines(), ct.lines());
            let st = match s.o.as_str() {
                "add" | "del" => {
                    let g = &p.groups[s.g];
                    let all: HashSet<Keyword> = (0..g.n).map(|i| kw(s.g, i)).collect();
                    let m: HashMap<_, _> =
                        (s.lo..s.hi).map(|v| (IndexedValue::Data(data(s.g, v, g.len)), all.clone())).collect();
                    let r = if s.o == "add" {
                        block(fx.add(&keyof(cred), &label(cred), m.into()))
                    } else {
                        block(fx.delete(&keyof(cred), &label(cred), m.into()))
                    };
                    r.map(|k| {
                        o.insert("new", json!(k.len()));
                        o.insert("alien", json!(k.iter().filter(|k| !all.contains(*k)).count()));
                    })
                    .map_err(|e| e.to_string())
                }
                "search" => {
                    // the keywords of all the groups at once, and one that is not indexed
                    let mut all: HashSet<Keyword> = HashSet::new();
                    p.groups.iter().enumerate().for_each(|(g, x)| all.extend((0..x.n).map(|i| kw(g, i))));
                    all.insert(kw(99, 0));
                    let cc = if s.lo == 1 { cred.wrapping_sub(1) } else { cred };
                    block(fx.search(&keyof(cc), &label(cc), all.into(), &|_| async { Ok::<_, String>(false) }))
                        .map(|r| {
                            let mut per: Vec<HashMap<BTreeSet<usize>, usize>> = vec![HashMap::new(); p.groups.len()];
                            let mut wrong = 0;
                            for (k, v) in r.iter() {
                                let name = String::from_utf8_lossy(k).to_string();
                                let w: Vec<&str> = name.split(' ').collect();
                                let g: usize = w[1].parse().unwrap_or(99);
                                let mut idx = BTreeSet::new();
                                for d in v.iter() {
                                    let (dg, dv) = index(&p.groups, d);
                                    wrong += usize::from(dg != g);
                                    idx.insert(dv.min(1 << 30));
                                }
                                if g < per.len() {
                                    *per[g].entry(idx).or_default() += 1;
                                }
                            }
                            o.insert("wrong", json!(wrong));
                            o.insert("n", json!(r.len()));
                            // groups of keywords that have the same answer
                            o.insert(
                                "out",
                                json!(per
                                    .iter()
                                    .map(|m| m.iter().take(5).map(|(s, n)| json!({"n":n,"vals":ranges(s)})).collect::<Vec<_>>())
                                    .collect::<Vec<_>>()),
                            );
                        })
                        .map_err(|e| e.to_string())
                }
                "compact" => {
                    // the data lo..hi are rejected
                    let (groups, fed, alien) = (&p.groups, RefCell::new(HashMap::<(usize, usize), usize>::new()), RefCell::new(0));
                    let filter = |d: HashSet<Data>| {
                        let mut kept = HashSet::new();
                        for x in d {
                            let (g, v) = index(groups, &x);
                            *alien.borrow_mut() += usize::from(g == usize::MAX);
                            *fed.borrow_mut().entry((g, v)).or_default() += 1;
                            if !(s.lo <= v && v < s.hi) {
                                kept.insert(x);
                            }
                        }
                        async { Ok::<_, String>(kept) }
                    };
                    let r = block(fx.compact(&keyof(cred), &keyof(cred + 1), &label(cred), &label(cred + 1), s.rate, &filter));
                    cred += 1;
                    o.insert("fed", json!(fed.borrow().len()));
                    o.insert("alien", json!(*alien.borrow()));
                    let (et1, ct1) = (et.lines(), ct.lines());
                    // lines left as they were
                    let old: HashSet<_> = et0.values().map(|v| v.ciphertext).collect();
                    o.insert("kept_et", json!(et1.iter().filter(|(t, v)| et0.contains_key(*t) || old.contains(&v.ciphertext)).count()));
                    let old: HashSet<_> = ct0.values().map(|v| v.ciphertext).collect();
                    o.insert("kept_ct", json!(ct1.iter().filter(|(t, v)| ct0.contains_key(*t) || old.contains(&v.ciphertext)).count()));
                    r.map_err(|e| e.to_string())
                }
                x => panic!("fxv machinery: mass operation {x}"),
            };
            let (et1, ct1) = (et.lines(), ct.lines());
            if s.o == "search" {
                o.insert("same", json!(et0 == et1 && ct0 == ct1));
            }
            o.insert("st", json!(if st.is_ok() { "ok" } else { "err" }));
            o.insert("msg", json!(st.err().unwrap_or_default().chars().take(300).collect::<String>()));
            o.insert("et", json!(et1.len()));
            o.insert("ct", json!(ct1.len()));
            let (a, b) = (et.0.seen.borrow(), ct.0.seen.borrow());
            let nonces: HashSet<_> = a.nonces.iter().chain(b.nonces.iter()).collect();
            let texts: HashSet<_> = a.texts.iter().chain(b.texts.iter()).collect();
            o.insert("sent", json!(a.sent + b.sent));
            o.insert("nonces", json!(nonces.len()));
            o.insert("texts", json!(texts.len()));
            o.insert("lines", json!(b.fresh));
            o.insert("tokens", json!(b.tokens.len()));
            for (k, v) in o {
                ev[k] = v;
            }
            env.w.push(ev);
        }
    }
}
