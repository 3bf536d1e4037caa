//! Serialization: round trips, maps, and every small corruption of what is serialized.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use manul::protocol::RoundId;
use manul::utils::SerializableMap;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

use crate::adv::*;
use crate::attacks::*;
use crate::evid::evidence_of;
use crate::local::phases;
use crate::node::*;
use crate::proto::{D, E, N};
use crate::report::Ctx;
use crate::sp::with_hash_log;
use crate::world::*;

fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_text(&*e))
}

struct Log<'a> {
    ctx: &'a Ctx,
    name: String,
}
impl Log<'_> {
    fn bad(&self, props: &[&str], key: &str, what: String, input: String) {
        if props.contains(&self.ctx.property.as_str()) || self.ctx.property == "ALL" {
            self.ctx.violation(format!("{key}: {}", self.name), what.clone(), vec![format!("configuration: {}", self.name), what, input]);
        }
    }
}

// Maps.

fn map_cases<K, V>(ctx: &Ctx, name: &str, keys: &[K], vals: &[V], max: usize)
where
    K: Clone + Debug + Ord + Serialize + DeserializeOwned,
    V: Clone + Debug + PartialEq + Serialize + DeserializeOwned,
{
    let log = Log { ctx, name: format!("map {name}") };
    let pairs: Vec<(K, V)> = keys.iter().flat_map(|k| vals.iter().map(move |v| (k.clone(), v.clone()))).collect();
    let mut lists: Vec<Vec<(K, V)>> = vec![vec![]];
    let mut at = 0;
    let mut n = 0;
    while at < lists.len() {
        let list = lists[at].clone();
        at += 1;
        if list.len() < max {
            for p in &pairs {
                let mut l = list.clone();
                l.push(p.clone());
                lists.push(l);
            }
        }
        let want: BTreeMap<K, V> = list.iter().cloned().collect();
        let distinct = want.len() == list.len();
        let text = serde_json::to_vec(&list).unwrap();
        let bytes = postcard::to_allocvec(&list).unwrap();
        let from = |m: Result<SerializableMap<K, V>, String>, how: &str| {
            match (&m, distinct) {
                (Ok(m), true) if **m == want => {
                    let ordered: Vec<(K, V)> = want.clone().into_iter().collect();
                    let j = serde_json::to_vec(m).unwrap();
                    let b = postcard::to_allocvec(m).unwrap();
                    if j != serde_json::to_vec(&ordered).unwrap() || b != postcard::to_allocvec(&ordered).unwrap() {
                        log.bad(&["C17"], "not a key-ordered list of pairs", format!("{m:?}"), String::from_utf8_lossy(&j).into());
                    }
                }
                (Err(_), false) => {}
                _ => log.bad(&["C17"], &format!("wrongly read from {how}"), format!("{list:?} gives {m:?}"), format!("{list:?}")),
            }
        };
        from(serde_json::from_slice(&text).map_err(|e| e.to_string()), "JSON");
        from(postcard::from_bytes(&bytes).map_err(|e| e.to_string()), "binary");
        // As a part of something bigger.
        let nested = json!([[1, &list], [2, &list]]);
        let m: Result<SerializableMap<u8, SerializableMap<K, V>>, _> = serde_json::from_value(nested);
        if m.is_ok() != distinct || m.is_ok_and(|m| *m[&1] != want || *m[&2] != want) {
            log.bad(&["C17"], "wrongly read inside of another map", format!("{list:?}"), String::new());
        }
        n += 3;
    }
    ctx.add(lists.len() as u64, n, n);
    ctx.count("map_lists", lists.len() as u64);
}

fn short_bytes(ctx: &Ctx) {
    let log = Log { ctx, name: "short inputs".into() };
    let mut n = 0u64;
    let mut binary = |b: &[u8]| {
        n += 1;
        let r = caught(|| {
            let _ = postcard::from_bytes::<SerializableMap<u8, u8>>(b);
            let _ = postcard::from_bytes::<SerializableMap<u8, SerializableMap<u8, u8>>>(b);
            let _ = postcard::from_bytes::<RoundId>(b).map(|r| (r.to_string(), format!("{r:?}")));
            let _ = postcard::from_bytes::<Msg>(b).map(|r| format!("{r:?}"));
        });
        if let Err(e) = r {
            log.bad(&["C17"], "panic", e, format!("{b:?}"));
        }
    };
    let edge = [0, 1, 2, 3, 4, 5, 16, 64, 127, 128, 129, 254, 255];
    for a in 0..=255 {
        binary(&[a]);
        for b in 0..=255 {
            binary(&[a, b]);
            for c in edge {
                binary(&[a, b, c]);
                for d in edge {
                    binary(&[a, b, c, d]);
                }
            }
        }
    }
    let mut text = |s: &[u8]| {
        n += 1;
        let r = caught(|| {
            let _ = serde_json::from_slice::<SerializableMap<u8, u8>>(s);
            let _ = serde_json::from_slice::<SerializableMap<String, Vec<u8>>>(s);
            let _ = serde_json::from_slice::<RoundId>(s);
            let _ = serde_json::from_slice::<Msg>(s);
        });
        if let Err(e) = r {
            log.bad(&["C17"], "panic", e, format!("{s:?}"));
        }
    };
    let chars = b"[],1\"{}:-n";
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..6 {
        let mut next = Vec::new();
        for s in &all {
            for c in chars {
                let mut t = s.clone();
                t.push(*c);
                next.push(t);
            }
        }
        all = next;
        for s in &all {
            text(s);
        }
    }
    ctx.add(n, n, n);
    ctx.count("short_inputs", n);
}

// Round identifiers.

fn round_ids(deep: bool) -> Vec<RoundId> {
    let mut groups: Vec<Vec<u8>> = vec![vec![]];
    let mut at = 0;
    while at < groups.len() {
        let g = groups[at].clone();
        at += 1;
        let set: &[u8] = if g.len() < 3 { &[0, 1, 2, 3] } else { &[1, 2] };
        if g.len() < if deep { 6 } else { 4 } {
            for x in set {
                let mut h = g.clone();
                h.push(*x);
                groups.push(h);
            }
        }
    }
    let rounds: &[u8] = if deep { &[0, 1, 2, 3, 4, 255] } else { &[0, 1, 2, 9] };
    groups
        .iter()
        .flat_map(|g| rounds.iter().flat_map(move |r| [false, true].map(|e| json!({"round": r, "groups": g, "is_echo": e}))))
        .map(|v| serde_json::from_value(v).expect("a round identifier"))
        .collect()
}

fn rid_roundtrips(ctx: &Ctx) {
    let log = Log { ctx, name: "round identifiers".into() };
    let all = round_ids(true);
    let mut texts = HashSet::new();
    for r in &all {
        let j = serde_json::to_string(r).unwrap();
        let b = postcard::to_allocvec(r).unwrap();
        let x: RoundId = serde_json::from_str(&j).unwrap();
        let y: RoundId = postcard::from_bytes(&b).unwrap();
        if x != *r || y != *r || x.cmp(&y) != std::cmp::Ordering::Equal || x.to_string() != r.to_string() {
            log.bad(&["C17"], "round identifier changed", format!("{r:?}"), j.clone());
        }
        if !texts.insert((j, b)) {
            log.bad(&["C17"], "two round identifiers look the same", format!("{r:?}"), String::new());
        }
    }
    ctx.add(all.len() as u64, all.len() as u64, all.len() as u64);
}

// Corruption of bytes.

const TEXT: &[u8] = b"019afzAZ{}[],:\"-.\\+n \x00\xff";
const BYTES: [u8; 12] = [0, 1, 2, 3, 7, 8, 16, 127, 128, 129, 254, 255];

/// Every string at distance one (in the alphabet of the format).
fn near(orig: &[u8], fmt: Fmt, all: bool, f: &mut dyn FnMut(&[u8])) {
    let mut buf = orig.to_vec();
    for i in 0..orig.len() {
        match fmt {
            Fmt::Json => {
                for c in TEXT {
                    if *c != orig[i] {
                        buf[i] = *c;
                        f(&buf);
                    }
                }
            }
            Fmt::Bin => {
                // All values, or those differing in one bit or by one, and those at the edges of the variable-length encoding.
                let some: BTreeSet<u8> = if all {
                    (0..=255).collect()
                } else {
                    (0..8).map(|b| orig[i] ^ (1 << b)).chain(BYTES).chain([orig[i].wrapping_add(1), orig[i].wrapping_sub(1)]).collect()
                };
                for c in some {
                    if c != orig[i] {
                        buf[i] = c;
                        f(&buf);
                    }
                }
            }
        }
        buf[i] = orig[i];
    }
    for i in 0..orig.len() {
        f(&orig[..i]);
        let mut b = orig.to_vec();
        b.remove(i);
        f(&b);
        let extra: &[u8] = if fmt == Fmt::Json { b"0,[{\"]}" } else { &BYTES };
        for c in extra {
            let mut b = orig.to_vec();
            b.insert(i, *c);
            f(&b);
        }
    }
}

fn pointers(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(path.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                pointers(x, path, out);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                path.push(k.clone());
                pointers(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, path: &[String]) -> &'a mut Value {
    path.iter().fold(v, |v, k| match v {
        Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
        Value::Object(o) => o.get_mut(k).unwrap(),
        _ => unreachable!(),
    })
}

/// Every replacement of a subtree by another one or by a constant, every removal, repetition and swap of neighbours.
fn trees(orig: &Value, others: &[Value], f: &mut dyn FnMut(&Value)) {
    let mut paths = Vec::new();
    pointers(orig, &mut vec![], &mut paths);
    let mut pool: BTreeMap<String, Value> = BTreeMap::new();
    let consts = [
        "null", "true", "0", "1", "255", "256", "-1", "1e300", "\"\"", "\"0x\"", "\"0x0\"", "\"0x00\"", "\"AA==\"", "\"bnVsbA==\"", "\"e30=\"",
        "[]", "{}", "[[]]", "[null]", "[[1,1]]",
    ];
    for c in consts {
        pool.insert(c.into(), serde_json::from_str(c).unwrap());
    }
    for r in round_ids(false).iter().step_by(37) {
        let v = serde_json::to_value(r).unwrap();
        pool.insert(v.to_string(), v);
    }
    for v in others.iter().chain([orig]) {
        let mut v = v.clone();
        let mut ps = Vec::new();
        pointers(&v, &mut vec![], &mut ps);
        for p in ps {
            let x = at(&mut v, &p).clone();
            pool.insert(x.to_string(), x);
        }
    }
    let mut v = orig.clone();
    for p in &paths {
        let old = at(&mut v, p).clone();
        for x in pool.values() {
            if *x != old {
                *at(&mut v, p) = x.clone();
                f(&v);
            }
        }
        match &old {
            Value::Array(a) => {
                for i in 0..a.len() {
                    let mut b = a.clone();
                    b.remove(i);
                    *at(&mut v, p) = b.into();
                    f(&v);
                    let mut b = a.clone();
                    b.insert(i, a[i].clone());
                    *at(&mut v, p) = b.into();
                    f(&v);
                    if i > 0 {
                        let mut b = a.clone();
                        b.swap(i, i - 1);
                        *at(&mut v, p) = b.into();
                        f(&v);
                    }
                }
            }
            Value::Object(o) => {
                for k in o.keys() {
                    let mut b = o.clone();
                    b.remove(k);
                    *at(&mut v, p) = b.into();
                    f(&v);
                }
            }
            _ => {}
        }
        *at(&mut v, p) = old;
    }
}

// Handling of deserialized objects.

struct Tally {
    tried: u64,
    read: u64,
    handled: u64,
}

/// The node after it finished the given number of phases.
fn advance(a: &Arena, done: usize) -> Box<dyn NodeDyn> {
    let mut node = make_node(&a.cfg, a.me, 0).expect("replays");
    for ph in phases(&a.cfg, a.me).into_iter().take(done) {
        node.make_all().expect("replays");
        for from in a.cfg.parties() {
            if let Some(m) = a.w0.msgs.get(&(from, a.me, ph)) {
                match node.pre(from, m.clone()).expect("replays") {
                    Pre::ToProcess(i) => node.process_add(i).expect("replays"),
                    x => panic!("{x:?}"),
                }
            }
        }
        match node.finalize().expect("replays") {
            Fin::Next { node: n, .. } => node = n,
            Fin::Done(_) => panic!("finished"),
        }
    }
    node.make_all().expect("replays");
    node
}

/// Lets a session receive a message in the given phase and then whatever completes the round.
fn handle(log: &Log, a: &Arena, done: usize, from: u8, msg: &Msg, t: &mut Tally, input: &dyn Fn() -> String) {
    t.handled += 1;
    let res = (|| -> Res<()> {
        let mut n = advance(a, done);
        if let Pre::ToProcess(i) = n.pre(from, msg.clone())? {
            n.process_add(i)?;
        }
        let ph = phases(&a.cfg, a.me)[done];
        for p in a.cfg.parties() {
            if let Some(m) = a.w0.msgs.get(&(p, a.me, ph)).filter(|_| p != from) {
                if let Pre::ToProcess(i) = n.pre(p, m.clone())? {
                    n.process_add(i)?;
                }
            }
        }
        let rep = if n.can_finalize()? == Cf::Yes {
            match n.finalize()? {
                Fin::Done(rep) => rep,
                Fin::Next { mut node, cached } => {
                    for (_, i) in cached {
                        node.process_add(i)?;
                    }
                    node.terminate(false)?
                }
            }
        } else {
            n.terminate(true)?
        };
        for (g, ev) in &rep.provable {
            if let EvRes::Panic(e) = &ev.verify {
                return Err(Fail::Panic(format!("verification of the evidence against {g}: {e}")));
            }
        }
        Ok(())
    })();
    match res {
        Ok(()) => {}
        Err(Fail::Panic(e)) => log.bad(&["C17", "C02"], "panic when handling a message", format!("in phase {done}: {e}"), input()),
        Err(Fail::Local(e)) => log.bad(&["C02"], "local error when handling a message", format!("in phase {done}: {e}"), input()),
    }
}

fn read_msg(fmt: Fmt, b: &[u8]) -> Result<Option<Msg>, String> {
    caught(|| match fmt {
        Fmt::Json => serde_json::from_slice(b).ok(),
        Fmt::Bin => postcard::from_bytes(b).ok(),
    })
}

pub struct SerialJob {
    pub arena: Arena,
    pub what: What,
    pub name: String,
    /// Which part of the inputs, of how many.
    pub lane: (u64, u64),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum What {
    /// Messages and evidence survive; sessions behave the same.
    RoundTrips,
    /// Damaged messages, in the given format.
    Messages(Fmt),
    /// Rearranged JSON of messages.
    MessageTrees,
    /// Damaged contents with proper signatures.
    Contents,
    /// Proper signatures on messages with any round identifier.
    RoundIds,
    /// Damaged evidence.
    Evidence(Fmt),
    EvidenceTrees,
    /// Evidence made of parts with any round identifiers.
    EvidenceRoundIds,
    /// Evidence of this protocol given to the verifiers of other protocols.
    Foreign,
}

/// Evidence of every kind this protocol and the menu produce.
fn evidences(a: &Arena, atks: &[Atk]) -> Vec<(String, u8, EvInfo)> {
    let mut out: Vec<(String, u8, EvInfo)> = Vec::new();
    let mut seen = HashSet::new();
    for g in a.cfg.parties() {
        if g == a.me {
            continue;
        }
        for ph in a.phases_of(g) {
            for atk in atks {
                let Some(d) = a.attack(g, ph, *atk) else { continue };
                let Ok(evs) = evidence_of(a, std::slice::from_ref(&d)) else { continue };
                for (who, ev) in evs {
                    if seen.insert(ev.json_text.clone()) {
                        out.push((format!("{g}: {}", d.label), who, ev));
                    }
                }
            }
        }
    }
    out
}

impl SerialJob {
    fn messages(&self) -> Vec<(u8, Phase, Msg)> {
        let a = &self.arena;
        a.w0.msgs.iter().filter(|((_, to, _), _)| *to == a.me).map(|((f, _, p), m)| (*f, *p, m.clone())).collect()
    }

    /// The phases in which a message of phase `ph` makes a difference.
    fn moments(&self, ph: Phase) -> Vec<usize> {
        let mine = phases(&self.arena.cfg, self.arena.me);
        let i = mine.iter().position(|p| *p == ph).unwrap_or(0);
        [i.saturating_sub(1), i].into_iter().collect::<BTreeSet<_>>().into_iter().collect()
    }

    pub fn run(&self, ctx: &Ctx, thorough: bool) {
        let log = Log { ctx, name: format!("{} {:?}", self.name, self.what) };
        let t0 = std::time::Instant::now();
        let a = &self.arena;
        let mut t = Tally { tried: 0, read: 0, handled: 0 };
        let mut turn = 0;
        let mut mine = || {
            turn += 1;
            turn % self.lane.1 == self.lane.0
        };
        let verify_any = |text: &str, t: &mut Tally| {
            t.tried += 1;
            match verify_json(&a.cfg, text, a.cfg.magics()).0 {
                EvRes::Panic(e) => log.bad(&["C17"], "panic when verifying evidence", e, text.into()),
                EvRes::Undecodable(_) => {}
                _ => t.read += 1,
            }
        };
        let mut all = all_attacks();
        all.extend((0..5).flat_map(|i| [D, E, N].map(|k| Atk::TagReq(k, i))));
        match self.what {
            What::RoundTrips => self.roundtrips(&log, &mut t, &all),
            What::Messages(fmt) => {
                for (from, ph, m) in self.messages() {
                    let orig = encode(fmt, &m);
                    let canon = to_json(&m);
                    let mut seen: HashSet<u128> = HashSet::new();
                    near(&orig, fmt, thorough, &mut |b| {
                        if !mine() {
                            return;
                        }
                        t.tried += 1;
                        match read_msg(fmt, b) {
                            Err(e) => log.bad(&["C17"], "panic when reading a message", e, format!("{:?}", String::from_utf8_lossy(b))),
                            Ok(None) => {}
                            Ok(Some(m2)) => {
                                t.read += 1;
                                let j = to_json(&m2);
                                if j != canon && seen.insert(crate::sp::hash128(j.to_string().as_bytes())) {
                                    for i in self.moments(ph) {
                                        handle(&log, a, i, from, &m2, &mut t, &|| format!("from {from}: {j}"));
                                    }
                                }
                            }
                        }
                    });
                }
            }
            What::MessageTrees => {
                let ms = self.messages();
                for (from, ph, m) in &ms {
                    let others: Vec<Value> = ms.iter().filter(|x| x.0 == *from).map(|x| to_json(&x.2)).collect();
                    trees(&to_json(m), &others, &mut |v| {
                        t.tried += 1;
                        let text = serde_json::to_vec(v).unwrap();
                        match read_msg(Fmt::Json, &text) {
                            Err(e) => log.bad(&["C17"], "panic when reading a message", e, v.to_string()),
                            Ok(None) => {}
                            Ok(Some(m2)) => {
                                t.read += 1;
                                for i in self.moments(*ph) {
                                    handle(&log, a, i, *from, &m2, &mut t, &|| format!("from {from}: {v}"));
                                }
                            }
                        }
                    });
                }
            }
            What::Contents => {
                for (from, ph, _) in self.messages() {
                    let parts = a.contents(from, ph);
                    for k in [D, E, N] {
                        let Some(orig) = parts.get(k).clone() else { continue };
                        let moment = self.moments(ph).pop().unwrap();
                        let mut one = |b: &[u8]| {
                            if !mine() {
                                return;
                            }
                            t.tried += 1;
                            let mut p = parts.clone();
                            *p.get_mut(k) = Some(b.to_vec());
                            let m = sign(a.cfg.fmt, a.cfg.session, from, &a.w0.rids[&ph], &p, a.me, 7);
                            handle(&log, a, moment, from, &m, &mut t, &|| format!("from {from}, part {k}: {:?}", String::from_utf8_lossy(b)));
                        };
                        near(&orig, a.cfg.fmt, thorough, &mut one);
                        if let (Fmt::Json, Ok(v)) = (a.cfg.fmt, serde_json::from_slice::<Value>(&orig)) {
                            trees(&v, &[], &mut |v| one(&serde_json::to_vec(v).unwrap()));
                        }
                    }
                }
            }
            What::RoundIds => {
                let rids = round_ids(true);
                let g = self.messages()[0].0;
                let mut bodies: BTreeSet<Vec<Option<Vec<u8>>>> = BTreeSet::new();
                for (from, ph, _) in self.messages() {
                    let p = a.contents(from, ph);
                    bodies.insert(vec![p.d, p.e, p.n]);
                }
                bodies.insert(vec![None, None, None]);
                let bodies: Vec<Parts> = bodies.into_iter().map(|v| Parts { d: v[0].clone(), e: v[1].clone(), n: v[2].clone() }).collect();
                for rid in &rids {
                    if !mine() {
                        continue;
                    }
                    for (i, p) in bodies.iter().enumerate() {
                        t.tried += 1;
                        let m = sign(a.cfg.fmt, a.cfg.session, g, rid, p, a.me, 7 + i as u64);
                        for done in 0..phases(&a.cfg, a.me).len() {
                            handle(&log, a, done, g, &m, &mut t, &|| format!("from {g}: {rid:?} {p:?}"));
                        }
                    }
                }
                if self.lane.0 == 0 {
                    self.pack_round_ids(&log, &mut t);
                }
            }
            What::Evidence(fmt) => {
                for (_, _, ev) in self.sampled(&all) {
                    match fmt {
                        Fmt::Json => near(ev.json_text.as_bytes(), fmt, thorough, &mut |b| {
                            if let Ok(s) = std::str::from_utf8(b) {
                                verify_any(s, &mut t);
                            }
                        }),
                        Fmt::Bin => near(&ev.bin, fmt, thorough, &mut |b| {
                            if !mine() {
                                return;
                            }
                            t.tried += 1;
                            match verify_bin(&a.cfg, b, a.cfg.magics()).0 {
                                EvRes::Panic(e) => log.bad(&["C17"], "panic when verifying evidence", e, format!("{b:?}")),
                                EvRes::Undecodable(_) => {}
                                _ => t.read += 1,
                            }
                        }),
                    }
                }
            }
            What::EvidenceTrees => {
                let evs = self.sampled(&all);
                for (i, (_, _, ev)) in evs.iter().enumerate() {
                    let others: Vec<Value> = if thorough || evs.len() < 2 {
                        evs.iter().map(|e| e.2.json.clone()).collect()
                    } else {
                        vec![evs[(i + 1) % evs.len()].2.json.clone()]
                    };
                    trees(&ev.json, &others, &mut |v| verify_any(&v.to_string(), &mut t));
                }
            }
            What::EvidenceRoundIds => {
                let rids = round_ids(false);
                for (_, guilty, ev) in self.sampled(&all) {
                    let names = self.rid_texts(&ev.json);
                    for old in &names {
                        for rid in &rids {
                            let v = self.relabel(&ev.json, guilty, old, rid);
                            verify_any(&v.to_string(), &mut t);
                        }
                    }
                    // Everything belongs to one round.
                    for rid in &rids {
                        let mut v = ev.json.clone();
                        for old in &names {
                            v = self.relabel(&v, guilty, old, rid);
                        }
                        verify_any(&v.to_string(), &mut t);
                    }
                }
            }
            What::Foreign => {
                let cfgs: Vec<Arc<Cfg>> = foreign();
                for (_, _, ev) in evidences(a, &all) {
                    for c in &cfgs {
                        t.tried += 2;
                        for r in [verify_json(c, &ev.json_text, c.magics()).0, verify_bin(c, &ev.bin, c.magics()).0] {
                            match r {
                                EvRes::Panic(e) => log.bad(&["C17"], "panic when verifying evidence", format!("{}: {e}", c.name), ev.json_text.clone()),
                                EvRes::Undecodable(_) => {}
                                _ => t.read += 1,
                            }
                        }
                    }
                }
            }
        }
        ctx.add(t.tried, t.handled, t.handled + t.read);
        ctx.count("inputs", t.tried);
        ctx.count("inputs_deserialized", t.read);
        ctx.count("inputs_handled_by_sessions", t.handled);
        ctx.sample(json!({"configuration": log.name, "inputs": t.tried, "deserialized": t.read, "handled": t.handled}));
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{}: {} inputs, {} read, {} handled, {:.1} s", log.name, t.tried, t.read, t.handled, t0.elapsed().as_secs_f64());
        }
    }

    /// One evidence of every form.
    fn sampled(&self, atks: &[Atk]) -> Vec<(String, u8, EvInfo)> {
        let mut forms = HashSet::new();
        evidences(&self.arena, atks)
            .into_iter()
            .filter(|(label, _, ev)| {
                let mut ps = Vec::new();
                pointers(&ev.json, &mut vec![], &mut ps);
                let form: Vec<String> = ps.iter().map(|p| p.join("/")).collect();
                let what = label.split(": ").last().unwrap().to_string();
                let class = if what.starts_with("Undecodable") || what.starts_with("Extra") || what.starts_with("Tag") { String::new() } else { what };
                forms.insert((form, class))
            })
            .collect()
    }

    fn roundtrips(&self, log: &Log, t: &mut Tally, atks: &[Atk]) {
        let a = &self.arena;
        let worlds = std::iter::once(&a.w0).chain(a.alt.values()).chain([&a.other]);
        for w in worlds {
            for m in w.msgs.values() {
                for fmt in [Fmt::Json, Fmt::Bin] {
                    t.tried += 1;
                    let b = encode(fmt, m);
                    match read_msg(fmt, &b) {
                        Ok(Some(m2)) => {
                            t.read += 1;
                            if format!("{m:?}") != format!("{m2:?}") || encode(Fmt::Json, &m2) != encode(Fmt::Json, m) || encode(Fmt::Bin, &m2) != encode(Fmt::Bin, m) {
                                log.bad(&["C17"], "message changed", format!("{fmt:?}: {m:?} became {m2:?}"), String::new());
                            }
                        }
                        r => log.bad(&["C17"], "message cannot be read back", format!("{fmt:?}: {r:?}"), format!("{m:?}")),
                    }
                }
            }
        }
        for wire in [Fmt::Json, Fmt::Bin] {
            match World::over(&a.cfg, &BTreeMap::new(), Some(wire)) {
                Ok(w) => {
                    let same = w.msgs.len() == a.w0.msgs.len()
                        && w.msgs.iter().zip(&a.w0.msgs).all(|(x, y)| x.0 == y.0 && to_json(x.1) == to_json(y.1))
                        && format!("{:?}", w.reports) == format!("{:?}", a.w0.reports);
                    if !same {
                        log.bad(&["C17"], "sessions behave differently over a wire", format!("{wire:?}"), String::new());
                    }
                }
                Err(e) => log.bad(&["C17"], "sessions fail over a wire", format!("{wire:?}: {e}"), String::new()),
            }
        }
        let evs = evidences(a, atks);
        let log_count = evs.len() as u64;
        for (label, guilty, ev) in evs {
            for src in [Fmt::Json, Fmt::Bin] {
                t.tried += 1;
                let bytes = if src == Fmt::Json { ev.json_text.as_bytes() } else { &ev.bin };
                match reload(&a.cfg, bytes, src) {
                    Ok(r) => {
                        t.read += 1;
                        if r.json_text != ev.json_text || r.bin != ev.bin || r.guilty != guilty || r.desc != ev.desc || r.verify != ev.verify {
                            log.bad(&["C17"], "evidence changed", format!("{label}, {src:?}: {ev:?} became {r:?}"), String::new());
                        }
                    }
                    Err(e) => log.bad(&["C17"], "evidence cannot be read back", format!("{label}, {src:?}: {e}"), ev.json_text.clone()),
                }
            }
        }
        log.ctx.count("evidence_objects", log_count);
    }

    /// Echo packs with entries of any rounds.
    fn pack_round_ids(&self, log: &Log, t: &mut Tally) {
        let a = &self.arena;
        if a.cfg.fmt != Fmt::Json {
            return;
        }
        let mine = phases(&a.cfg, a.me);
        for (from, ph, m) in self.messages().into_iter().filter(|x| x.1 .2) {
            let entries = unpack(&m);
            for i in 0..entries.len() {
                let who = entries[i].0;
                for rid in round_ids(false) {
                    // Signed for that round.
                    let (msg, hashes) = with_hash_log(|| {
                        sign(a.cfg.fmt, a.cfg.session, who, &rid, &a.contents(if who == a.me { from } else { who }, (ph.0, ph.1, false)), a.me, 9)
                    });
                    let Some(hash) = part_hash_in(&hashes, &msg, E) else { continue };
                    t.tried += 1;
                    let mut list = entries.clone();
                    list[i].1 = Entry::forge(&msg, E, &hash);
                    let p = Parts { n: Some(pack(&list)), ..Parts::default() };
                    let m = sign(a.cfg.fmt, a.cfg.session, from, &a.w0.rids[&ph], &p, a.me, 8);
                    let at = mine.iter().position(|x| *x == ph).unwrap();
                    handle(log, a, at, from, &m, t, &|| format!("from {from}: entry of {who} for {rid:?}"));
                }
            }
        }
    }

    fn rid_texts(&self, ev: &Value) -> Vec<Value> {
        fn go(v: &Value, out: &mut BTreeMap<String, Value>) {
            match v {
                Value::Object(o) if o.contains_key("is_echo") => {
                    out.insert(v.to_string(), v.clone());
                }
                Value::Object(o) => o.values().for_each(|x| go(x, out)),
                Value::Array(l) => l.iter().for_each(|x| go(x, out)),
                _ => {}
            }
        }
        let mut m = BTreeMap::new();
        go(ev, &mut m);
        m.into_values().collect()
    }

    /// Evidence in which a round is called differently, with proper signatures.
    fn relabel(&self, ev: &Value, guilty: u8, old: &Value, new: &RoundId) -> Value {
        fn go(s: &SerialJob, v: &mut Value, signer: u8, kind: u8, old: &Value, new: &Value, rid: &RoundId) {
            let a = &s.arena;
            if v == old {
                *v = new.clone();
                return;
            }
            match v {
                Value::Object(o) if o.contains_key("message_with_metadata") => {
                    if o["message_with_metadata"]["metadata"]["round_id"] == *old {
                        let mut p = Parts::default();
                        *p.get_mut(kind) = o["message_with_metadata"]["message"].as_str().map(unbase64);
                        let m = sign(a.cfg.fmt, a.cfg.session, signer, rid, &p, a.me, 5);
                        *v = to_json(&m)[field(kind)].clone();
                    }
                }
                Value::Object(o) if o.contains_key("message_part_hash") => {
                    if o["metadata"]["round_id"] == *old {
                        let mut p = Parts::default();
                        p.e = Some(b"anything".to_vec());
                        let (m, hashes) = with_hash_log(|| sign(a.cfg.fmt, a.cfg.session, signer, rid, &p, a.me, 5));
                        if let Some(h) = part_hash_in(&hashes, &m, E) {
                            *v = Entry::forge(&m, E, &h).json();
                        }
                    }
                }
                Value::Object(o) => {
                    for (k, x) in o.iter_mut() {
                        let kind = match &k[..] {
                            "direct_message" | "direct_messages" | "InvalidDirectMessage" => D,
                            "echo_broadcast" | "echo_broadcasts" | "InvalidEchoBroadcast" | "we_received" | "other_echo_broadcasts" => E,
                            "normal_broadcast" | "normal_broadcasts" | "InvalidNormalBroadcast" | "echo_hashes" => N,
                            _ => kind,
                        };
                        go(s, x, signer, kind, old, new, rid);
                    }
                }
                Value::Array(l) => {
                    // The pairs in the lists of other parties' broadcasts start with the sender.
                    let signer = l.first().and_then(|x| x.as_u64()).map_or(signer, |x| x as u8);
                    for x in l.iter_mut() {
                        go(s, x, signer, kind, old, new, rid);
                    }
                }
                _ => {}
            }
        }
        let mut v = ev.clone();
        let n = serde_json::to_value(new).unwrap();
        go(self, &mut v["evidence"], guilty, N, old, &n, new);
        v
    }
}

fn foreign() -> Vec<Arc<Cfg>> {
    use crate::checks::chain;
    use crate::shapes::*;
    let g = |s: crate::proto::Shape| Arc::new(Cfg::grid(s));
    let mut v = vec![g(uniform(0, 3, &[E, N])), g(uniform(0, 3, &[D])), Arc::new(Cfg::grid(uniform(0, 3, &[7, 7, 7])).bin())];
    let sh = |c: &[&[u8]]| c.iter().enumerate().map(|(i, c)| uniform(i as u8, 3, c)).collect::<Vec<_>>();
    v.push(chain(Topo::Two, sh(&[&[7], &[E, D]])));
    v.push(chain(Topo::Left, sh(&[&[7], &[E, D], &[N]])));
    v.push(chain(Topo::Right, sh(&[&[N], &[E, D], &[7]])));
    v
}

pub fn run(ctx: &Ctx, jobs: &[SerialJob]) {
    if ctx.property == "C17" {
        let pieces: Vec<usize> = (0..7).collect();
        ctx.par(&pieces, |i| {
            let max = if ctx.thorough { 6 } else { 5 };
            match i {
                0 => short_bytes(ctx),
                1 => map_cases(ctx, "of numbers", &[1u8, 2, 200], &[0u8, 9], max),
                2 => map_cases(ctx, "of strings", &["a".to_string(), "b".into(), "".into()], &[Some(1u16), None], max - 1),
                3 => map_cases(
                    ctx,
                    "of rounds",
                    &[RoundId::new(1), RoundId::new(2), serde_json::from_value(json!({"round": 1, "groups": [1, 2, 1, 2, 1], "is_echo": true})).unwrap()],
                    &[vec![1u8], vec![]],
                    max - 1,
                ),
                4 => rid_roundtrips(ctx),
                5 => plain(ctx, Fmt::Json),
                _ => plain(ctx, Fmt::Bin),
            }
        });
    }
    ctx.par(jobs, |j| {
        if ctx.wants(&format!("{} {:?}", j.name, j.what)) {
            j.run(ctx, ctx.thorough);
        }
    });
}

// A protocol without provable errors.

#[derive(Debug, Clone, Copy, Serialize, serde::Deserialize)]
struct PlainP;
impl manul::protocol::Protocol<crate::sp::Id> for PlainP {
    type Result = ();
    type SharedData = ();
    fn round_info(id: &RoundId) -> Option<manul::protocol::RoundInfo<crate::sp::Id, Self>> {
        match id {
            x if x == 1 => Some(manul::protocol::RoundInfo::new::<PlainRound<1>>()),
            x if x == 2 => Some(manul::protocol::RoundInfo::new::<PlainRound<2>>()),
            _ => None,
        }
    }
}
#[derive(Debug)]
struct PlainRound<const N: u8>;
impl<const K: u8> manul::protocol::Round<crate::sp::Id> for PlainRound<K> {
    type Protocol = PlainP;
    type ProtocolError = manul::protocol::NoProtocolErrors<Self>;
    type DirectMessage = u8;
    type EchoBroadcast = u8;
    type NormalBroadcast = u8;
    type Payload = ();
    type Artifact = ();
    fn transition_info(&self) -> manul::protocol::TransitionInfo {
        unreachable!()
    }
    fn communication_info(&self) -> manul::protocol::CommunicationInfo<crate::sp::Id> {
        unreachable!()
    }
    fn receive_message(
        &self,
        _from: &crate::sp::Id,
        _message: manul::protocol::ProtocolMessage<crate::sp::Id, Self>,
    ) -> Result<(), manul::protocol::ReceiveError<crate::sp::Id, Self>> {
        unreachable!()
    }
    fn finalize(
        self,
        _rng: &mut impl rand_core::CryptoRngCore,
        _payloads: BTreeMap<crate::sp::Id, ()>,
        _artifacts: BTreeMap<crate::sp::Id, ()>,
    ) -> Result<manul::protocol::FinalizeOutcome<crate::sp::Id, PlainP>, manul::session::LocalError> {
        unreachable!()
    }
}

/// Evidence of protocol errors where there are none.
fn plain(ctx: &Ctx, fmt: Fmt) {
    use crate::sp::{Bin, Json, Sp};
    use manul::session::Evidence;
    let log = Log { ctx, name: format!("no protocol errors {fmt:?}") };
    let mut tried = 0u64;
    let mut read = 0u64;
    let mut go = |text: &str| {
        tried += 1;
        let r = caught(|| match fmt {
            Fmt::Json => serde_json::from_str::<Evidence<PlainP, Sp<Json>>>(text).ok().map(|e| e.verify(&()).is_ok()),
            Fmt::Bin => serde_json::from_str::<Evidence<PlainP, Sp<Bin>>>(text).ok().map(|e| e.verify(&()).is_ok()),
        });
        match r {
            Err(e) => log.bad(&["C17"], "panic when verifying evidence", e, text.into()),
            Ok(Some(true)) if text.contains("\"Protocol\"") => {
                log.bad(&["C17", "C04"], "a protocol error is proven where there is none", String::new(), text.into())
            }
            Ok(Some(_)) => read += 1,
            Ok(None) => {}
        }
    };
    let part = |round: u8, k: u8| {
        let mut p = Parts::default();
        *p.get_mut(k) = Some(encode(fmt, 5u8));
        to_json(&sign(fmt, 1, 2, &RoundId::new(round), &p, 1, 3))[field(k)].to_string()
    };
    let none = |round: u8, k: u8| to_json(&sign(fmt, 1, 2, &RoundId::new(round), &Parts::default(), 1, 3))[field(k)].to_string();
    let choices = |k: u8| vec!["null".to_string(), part(1, k), part(2, k), part(3, k), none(1, k), none(2, k)];
    let rid = |n: u8| serde_json::to_string(&RoundId::new(n)).unwrap();
    let maps = |k: u8| vec!["[]".to_string(), format!("[[{},{}]]", rid(1), part(1, k)), format!("[[{},{}]]", rid(2), none(1, k))];
    let mut sample = None;
    for error in ["bnVsbA==", "", "AA==", "e30=", "/w=="] {
        for d in choices(D) {
            for e in choices(E) {
                for n in choices(N) {
                    for (md, me, mn) in maps(D).iter().flat_map(|a| maps(E).into_iter().flat_map(move |b| maps(N).into_iter().map(move |c| (a.clone(), b.clone(), c)))) {
                        if error != "bnVsbA==" && error.len() > 1 && md.len() > 2 {
                            continue;
                        }
                        let text = format!(
                            "{{\"guilty_party\":2,\"description\":\"\",\"evidence\":{{\"Protocol\":{{\"error\":\"{error}\",\"direct_message\":{d},\"echo_broadcast\":{e},\
                             \"normal_broadcast\":{n},\"direct_messages\":{md},\"echo_broadcasts\":{me},\"normal_broadcasts\":{mn},\"other_echo_broadcasts\":[],\
                             \"echo_hashes\":[],\"phantom\":null}}}}}}"
                        );
                        go(&text);
                        if d.len() > 4 && md.len() > 2 && sample.is_none() {
                            sample = Some(text);
                        }
                    }
                }
            }
        }
    }
    let v: Value = serde_json::from_str(&sample.unwrap()).unwrap();
    trees(&v, &[], &mut |v| go(&v.to_string()));
    ctx.add(tried, tried, read);
    ctx.count("inputs", tried);
    ctx.count("inputs_deserialized", read);
}
