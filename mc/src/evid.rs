//! Evidence assembled from all signed material in scope, and what it convinces a third party of.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

use serde_json::{json, Value};

use crate::adv::*;
use crate::attacks::*;
use crate::node::*;
use crate::open::{Body, Desc, Ent};
use crate::proto::*;
use crate::report::Ctx;
use crate::world::*;

/// A signed message part that exists.
#[derive(Debug, Clone)]
pub struct Pt {
    pub signer: u8,
    pub session: u8,
    pub ph: Option<Phase>,
    pub kind: u8,
    pub text: String,
    pub content: Option<Vec<u8>>,
    /// Honestly made, or needed for convictions.
    pub core: bool,
    /// Made in an undisturbed execution.
    pub plain: bool,
}

/// The echo pack of a party: what was confirmed, if everything in it is valid, and whose entry is broken otherwise.
#[derive(Debug, Clone)]
pub struct Pack {
    pub signer: u8,
    pub session: u8,
    pub ph: Phase,
    pub text: String,
    pub entries: BTreeMap<u8, Ent>,
}

/// Everything signed in one history.
pub struct Material {
    pub cfg: Arc<Cfg>,
    pub honest: u8,
    pub parts: Vec<Pt>,
    pub packs: Vec<Pack>,
    /// (session, signer, slot, round, kind, content)
    pub auth: HashSet<(u8, u8, u8, u8, u8, Val)>,
    by_text: HashMap<(u8, String), usize>,
}

fn decode(cfg: &Cfg, bytes: &[u8]) -> Option<Val> {
    match cfg.fmt {
        Fmt::Json => serde_json::from_slice(bytes).ok(),
        Fmt::Bin => postcard::take_from_bytes(bytes).ok().and_then(|(v, rest)| rest.is_empty().then_some(v)),
    }
}

impl Material {
    /// `honest` follows the protocol; `h_world` is the execution it took part in.
    pub fn new(a: &Arena, honest: u8, h_world: &World, atks: &[Atk]) -> Material {
        let mut m = Material {
            cfg: a.cfg.clone(),
            honest,
            parts: vec![],
            packs: vec![],
            auth: HashSet::new(),
            by_text: HashMap::new(),
        };
        let world = |m: &mut Material, w: &World, session: u8, only: &dyn Fn(u8) -> bool| {
            for ((from, to, ph), msg) in &w.msgs {
                if only(*from) {
                    m.add(*from, session, Some(*ph), msg, &a.body(w, *from, *to, *ph), true, true);
                }
            }
        };
        world(&mut m, h_world, a.cfg.session, &|p| p == honest);
        world(&mut m, &a.w0, a.cfg.session, &|p| p != honest);
        world(&mut m, &a.other, 2, &|_| true);
        for (g, w) in &a.alt {
            if *g != honest {
                world(&mut m, w, a.cfg.session, &|p| p == *g);
            }
        }
        for g in a.cfg.parties() {
            if g == honest || g == a.me {
                continue;
            }
            for ph in a.phases_of(g) {
                for atk in atks {
                    if let Some(d) = a.attack(g, ph, *atk) {
                        if d.sig_ok && d.meta_ok && d.session_ok && *atk != Atk::WrongAddressee {
                            let core = matches!(atk, Atk::TagProv(_) | Atk::TagReq(..) | Atk::PackAlt | Atk::PackBrokenSig);
                            m.add(g, a.cfg.session, d.ph, &d.msg, &d.body, core, false);
                        }
                    }
                }
            }
        }
        m
    }

    fn add(&mut self, signer: u8, session: u8, ph: Option<Phase>, msg: &Msg, body: &Body, core: bool, plain: bool) {
        let v = to_json(msg);
        for (kind, f) in FIELDS {
            let text = v[f].to_string();
            if self.by_text.contains_key(&(kind, text.clone())) {
                continue;
            }
            let content = v[f]["message_with_metadata"]["message"].as_str().map(unbase64);
            if let (Some(ph), Some(c)) = (ph, &content) {
                if !ph.2 {
                    if let Some(val) = decode(&self.cfg, c) {
                        self.auth.insert((session, signer, ph.0, ph.1, kind, val));
                    }
                }
            }
            if let (Body::Pack { entries, .. }, N, Some(ph)) = (body, kind, ph) {
                self.packs.push(Pack { signer, session, ph, text: text.clone(), entries: entries.clone() });
            }
            self.by_text.insert((kind, text.clone()), self.parts.len());
            self.parts.push(Pt { signer, session, ph, kind, text, content, core, plain });
        }
    }

    fn home(&self, signer: u8, session: u8, ph: Phase, kind: u8) -> Option<&Pt> {
        self.parts.iter().find(|p| p.signer == signer && p.session == session && p.ph == Some(ph) && p.kind == kind)
    }

    fn authentic(&self, kind: u8, text: &str) -> Option<&Pt> {
        self.by_text.get(&(kind, text.to_string())).map(|i| &self.parts[*i])
    }

    /// Whether the part does not have the form the round declares.
    fn malformed(&self, p: &Pt) -> Option<bool> {
        let ph = p.ph?;
        if ph.2 {
            if p.kind != N {
                return Some(p.content.is_some());
            }
            let Some(c) = &p.content else { return Some(true) };
            if p.plain {
                return Some(false);
            }
            if self.cfg.fmt == Fmt::Bin {
                return None;
            }
            let Ok(v) = serde_json::from_slice::<Value>(c) else { return Some(true) };
            let Some(list) = v["message_hashes"].as_array() else { return Some(true) };
            let keys: BTreeSet<String> = list.iter().map(|x| x[0].to_string()).collect();
            return Some(keys.len() != list.len());
        }
        let has = self.cfg.shape(ph.0).rounds[&ph.1].combo & p.kind != 0;
        Some(match &p.content {
            None => has,
            Some(c) => !has || decode(&self.cfg, c).is_none(),
        })
    }

    /// What is wrong with what a verifier was given, if anything.
    pub fn unauthentic(&self, guilty: u8, seen: &Seen) -> Option<String> {
        let Some(session) = (1..=3u8).find(|s| crate::sp::session_id(*s).as_ref() == &seen.sr[..]) else {
            return Some("unknown session".into());
        };
        if seen.from != guilty {
            return Some(format!("the accused party is {guilty}, the verifier is told {}", seen.from));
        }
        if self.cfg.shape(seen.slot).magic != seen.magic {
            return Some(format!("shared data of another protocol for an error of protocol {}", seen.slot));
        }
        let ok = |from: u8, round: u8, kind: u8, v: &Val| {
            self.auth.contains(&(session, from, seen.slot, round, kind, v.clone()))
        };
        for (k, v) in &seen.parts {
            if !ok(guilty, seen.round, *k, v) {
                return Some(format!("part {k} of round {}: {v:?}", seen.round));
            }
        }
        for (num, k, v) in &seen.prev {
            if !ok(guilty, *num, *k, v) {
                return Some(format!("part {k} of the earlier round {num}: {v:?}"));
            }
        }
        for (num, list) in &seen.echos {
            for (p, v) in list {
                if !ok(*p, *num, E, v) {
                    return Some(format!("the echo broadcast of {p} in round {num}: {v:?}"));
                }
            }
            let want: BTreeMap<u8, Ent> = list.iter().map(|(p, v)| (*p, Ent::Is(v.clone()))).collect();
            if !self.packs.iter().any(|x| {
                x.signer == guilty && x.session == session && x.ph == (seen.slot, *num, true) && x.entries == want
            }) {
                return Some(format!("echo broadcasts that {guilty} did not confirm in round {num}: {list:?}"));
            }
        }
        None
    }
}

/// The evidence a victim records when it receives the given messages instead of the good ones, everything else being as
/// it should be.
pub fn evidence_of(a: &Arena, bad: &[Desc]) -> Result<BTreeMap<u8, EvInfo>, String> {
    let f = |e: Fail| e.to_string();
    let mut node = make_node(&a.cfg, a.me, 0).map_err(f)?;
    for ph in crate::local::phases(&a.cfg, a.me) {
        node.make_all().map_err(f)?;
        for from in a.cfg.parties() {
            let Some(good) = a.good(from, ph) else { continue };
            if !crate::local::phase_comm(&a.cfg, a.me, ph).1.contains(&from) {
                continue;
            }
            let d = bad.iter().find(|d| d.from == from && d.ph == Some(ph)).unwrap_or(&good);
            match node.pre(from, d.msg.clone()).map_err(f)? {
                Pre::ToProcess(i) => node.process_add(i).map_err(f)?,
                x => return Err(format!("{from} [{}]: {x:?}", d.label)),
            }
        }
        if node.can_finalize().map_err(f)? != Cf::Yes {
            return Ok(node.terminate(true).map_err(f)?.provable);
        }
        match node.finalize().map_err(f)? {
            Fin::Done(rep) => return Ok(rep.provable),
            Fin::Next { node: n, .. } => node = n,
        }
    }
    unreachable!()
}

/// A field of an evidence with the texts that are tried for it. The first one belongs there.
struct Slot {
    name: String,
    near: Vec<String>,
    far: Vec<String>,
}

struct Form {
    name: String,
    pieces: Vec<String>,
    slots: Vec<Slot>,
}

impl Form {
    fn text(&self, guilty: u8, choice: &[&str]) -> String {
        let mut s = format!("{{\"guilty_party\":{guilty},\"description\":\"\",\"evidence\":{{");
        for (i, p) in self.pieces.iter().enumerate() {
            s += p;
            if i < choice.len() {
                s += choice[i];
            }
        }
        s += "}}";
        s
    }
}

pub struct EvidJob {
    pub arena: Arena,
    pub honest: u8,
    /// The party whose other message the honest one received.
    pub history: Option<u8>,
    pub atks: Vec<Atk>,
    pub pairs: bool,
    pub recombine: bool,
    /// Only evidence of malformed parts.
    pub malformed_only: bool,
    pub name: String,
}

fn rid_text(a: &Arena, ph: Phase) -> String {
    let main = &a.w0.rids[&(ph.0, ph.1, false)];
    if ph.2 {
        // Only rounds with echo broadcasts have one.
        a.w0.rids.get(&ph).map(|r| serde_json::to_string(r).unwrap()).unwrap_or_else(|| "null".into())
    } else {
        serde_json::to_string(main).unwrap()
    }
}

impl EvidJob {
    fn protocol_form(&self, m: &Material, guilty: u8, session: u8, ph: Phase, req: &Req, error: &str, errors: &[String], bad: Option<&Value>) -> Form {
        let a = &self.arena;
        let near: Vec<&Pt> = m.parts.iter().filter(|p| p.core).collect();
        let far: Vec<&Pt> = m.parts.iter().filter(|p| !p.core).collect();
        let none = || "null".to_string();
        let mut slots = Vec::new();
        let mut pieces = vec!["\"Protocol\":{\"error\":".to_string()];
        slots.push(Slot {
            name: "error".into(),
            near: std::iter::once(error.to_string()).chain(errors.iter().cloned()).collect(),
            far: vec![],
        });
        let alone = |k: u8| -> String {
            bad.filter(|_| true)
                .map(|v| v[field(k)].to_string())
                .or_else(|| m.home(guilty, session, ph, k).map(|p| p.text.clone()))
                .unwrap_or_else(none)
        };
        for (k, f) in FIELDS {
            pieces.push(format!(",\"{f}\":"));
            let home = if req.this & k != 0 { alone(k) } else { none() };
            let mut n = vec![home];
            n.push(none());
            n.extend(near.iter().map(|p| p.text.clone()));
            slots.push(Slot { name: f.into(), near: n, far: far.iter().map(|p| p.text.clone()).collect() });
        }
        let rounds: Vec<u8> = a.cfg.shape(ph.0).rounds.keys().copied().collect();
        for (k, f) in [(D, "direct_messages"), (E, "echo_broadcasts"), (N, "normal_broadcasts")] {
            pieces.push(format!(",\"{f}\":"));
            let home: Vec<(String, String)> = req
                .prev
                .iter()
                .filter(|(_, b)| **b & k != 0)
                .filter_map(|(num, _)| {
                    let p = (ph.0, *num, false);
                    Some((rid_text(a, p), m.home(guilty, session, p, k)?.text.clone()))
                })
                .collect();
            slots.push(map_slot(f, &home, &near, &far, &rounds.iter().map(|n| rid_text(a, (ph.0, *n, false))).collect::<Vec<_>>()));
        }
        // Echos.
        let mut hashes = Vec::new();
        let mut others: Vec<(String, Vec<(u8, String)>)> = Vec::new();
        for num in &req.echos {
            let p = (ph.0, *num, true);
            let main = (ph.0, *num, false);
            if let Some(x) = m.home(guilty, session, p, N) {
                hashes.push((rid_text(a, main), x.text.clone()));
            }
            let keys = a.w0.pack_keys(guilty, p);
            let list = keys.iter().filter_map(|q| Some((*q, m.home(*q, session, main, E)?.text.clone()))).collect();
            others.push((rid_text(a, main), list));
        }
        pieces.push(",\"other_echo_broadcasts\":".into());
        let show = |o: &Vec<(String, Vec<(u8, String)>)>| {
            let inner = |l: &Vec<(u8, String)>| format!("[{}]", l.iter().map(|(k, t)| format!("[{k},{t}]")).collect::<Vec<_>>().join(","));
            format!("[{}]", o.iter().map(|(r, l)| format!("[{r},{}]", inner(l))).collect::<Vec<_>>().join(","))
        };
        let mut n = vec![show(&others), "[]".into()];
        let mut fr = vec![];
        for i in 0..others.len() {
            for j in 0..others[i].1.len() {
                let mut o = others.clone();
                o[i].1.remove(j);
                n.push(show(&o));
                for (pts, out) in [(&near, &mut n), (&far, &mut fr)] {
                    for p in pts.iter() {
                        let mut o = others.clone();
                        o[i].1[j].1 = p.text.clone();
                        out.push(show(&o));
                    }
                }
            }
            for num in &rounds {
                let mut o = others.clone();
                o[i].0 = rid_text(a, (ph.0, *num, false));
                n.push(show(&o));
            }
        }
        slots.push(Slot { name: "other_echo_broadcasts".into(), near: n, far: fr });
        pieces.push(",\"echo_hashes\":".into());
        slots.push(map_slot(
            "echo_hashes",
            &hashes,
            &near,
            &far,
            &rounds.iter().map(|n| rid_text(a, (ph.0, *n, false))).collect::<Vec<_>>(),
        ));
        pieces.push(",\"phantom\":null}".into());
        Form { name: format!("protocol error of {guilty} in {}, {req:?}, session {session}", a.cfg.round_name(ph.0, ph.1, ph.2)), pieces, slots }
    }
}

fn map_slot(name: &str, home: &[(String, String)], near: &[&Pt], far: &[&Pt], rids: &[String]) -> Slot {
    let show = |l: &[(String, String)]| format!("[{}]", l.iter().map(|(k, t)| format!("[{k},{t}]")).collect::<Vec<_>>().join(","));
    let mut n = vec![show(home), "[]".to_string()];
    let mut f = vec![];
    for i in 0..home.len() {
        let mut h = home.to_vec();
        h.remove(i);
        n.push(show(&h));
        for r in rids {
            let mut h = home.to_vec();
            h[i].0 = r.clone();
            n.push(show(&h));
        }
        for (pts, out) in [(near, &mut n), (far, &mut f)] {
            for p in pts {
                let mut h = home.to_vec();
                h[i].1 = p.text.clone();
                out.push(show(&h));
            }
        }
    }
    // Another entry.
    for r in rids {
        if home.iter().all(|(k, _)| k != r) {
            for p in near {
                let mut h = home.to_vec();
                h.push((r.clone(), p.text.clone()));
                f.push(show(&h));
            }
        }
    }
    Slot { name: name.into(), near: n, far: f }
}

/// Runs all assemblies of a job.
pub fn run(ctx: &Ctx, jobs: &[EvidJob]) {
    // Split further, so that all cores are busy.
    let work: Vec<(usize, usize)> = (0..jobs.len()).flat_map(|j| (0..8).map(move |i| (j, i))).collect();
    let mats: Vec<Material> = jobs
        .iter()
        .map(|j| {
            let w = j.history.map_or(&j.arena.w0, |g| &j.arena.alt[&g]);
            Material::new(&j.arena, j.honest, w, &j.atks)
        })
        .collect();
    ctx.par(&work, |(j, lane)| {
        let job = &jobs[*j];
        if ctx.wants(&job.name) {
            if let Err(e) = job.run(ctx, &mats[*j], *lane) {
                ctx.violation(format!("{}: the evidence to start from", job.name), e, vec![job.name.clone()]);
            }
        }
    });
}

struct Tally<'a> {
    ctx: &'a Ctx,
    job: &'a EvidJob,
    mat: &'a Material,
    tried: u64,
    rejected: u64,
    verified: u64,
    handed: u64,
}

impl Tally<'_> {
    fn judge(&mut self, form: &str, guilty: u8, text: &str, malformed_part: Option<(u8, &str)>) {
        self.tried += 1;
        let cfg = &self.job.arena.cfg;
        let ((res, _), seen) = lenient(|| verify_json(cfg, text, cfg.magics()));
        let mut report = |props: &[&str], key: String, what: String| {
            if props.contains(&self.ctx.property.as_str()) || self.ctx.property == "ALL" || (self.ctx.property == "C15" && cfg.topo != Topo::Grid) {
                self.ctx.violation(
                    format!("{key}: {}", self.job.name),
                    what.clone(),
                    vec![format!("configuration: {}", self.job.name), form.into(), what, format!("evidence: {text}")],
                );
            }
        };
        match &res {
            EvRes::Panic(e) => report(&["C17", "C04"], "panic".into(), format!("verification panics: {e}")),
            EvRes::Ok if guilty == self.job.honest => {
                report(&["C04"], "honest party convicted".into(), format!("evidence against the honest party {guilty} verifies"))
            }
            _ => {}
        }
        if let Some((kind, part)) = malformed_part {
            let state = match self.mat.authentic(kind, part) {
                Some(p) if p.signer == guilty => self.mat.malformed(p),
                _ => Some(false),
            };
            if state == Some(true) && res != EvRes::Ok {
                report(&["C19"], "malformed part not convicted".into(), format!("evidence of a malformed part of kind {kind} gives {res:?}: {part}"));
            }
            if state == Some(false) && res == EvRes::Ok {
                report(&["C19"], "well-formed part convicted".into(), format!("evidence of malformedness of a part of kind {kind} verifies: {part}"));
            }
        }
        for s in &seen {
            self.handed += 1;
            if let Some(why) = self.mat.unauthentic(guilty, s) {
                let props: &[&str] =
                    if guilty == self.job.honest { &["C22", "C04", "C15"] } else { &["C22", "C15"] };
                if why.starts_with("shared data") {
                    report(&["C15"], "shared data".into(), why);
                } else {
                    report(&props[..props.len() - 1], "not authentic".into(), format!("the verifier of an error of {guilty} is given {why}"));
                }
            }
        }
        match res {
            EvRes::Ok => self.verified += 1,
            _ => self.rejected += 1,
        }
    }
}

impl EvidJob {
    fn run(&self, ctx: &Ctx, m: &Material, lane: usize) -> Result<(), String> {
        let t0 = std::time::Instant::now();
        let a = &self.arena;
        let cfg = &a.cfg;
        let mut t = Tally { ctx, job: self, mat: m, tried: 0, rejected: 0, verified: 0, handed: 0 };
        let deadline = ctx.deadline();
        let mut turn = 0usize;
        let mut mine = || {
            turn += 1;
            turn % 8 == lane
        };
        let mut cut = false;

        // Protocol errors: first collect genuine ones.
        let mut genuine: Vec<(u8, Phase, u8, Req, String, Value)> = Vec::new();
        for g in cfg.parties() {
            if g == a.me || g == self.honest || self.malformed_only {
                continue;
            }
            for ph in a.phases_of(g) {
                if ph.2 {
                    continue;
                }
                for atk in &self.atks {
                    let Atk::TagReq(k, i) = *atk else { continue };
                    let Some(d) = a.attack(g, ph, *atk) else { continue };
                    let evs = evidence_of(a, std::slice::from_ref(&d))?;
                    let ev = evs.get(&g).ok_or_else(|| format!("no evidence against {g} for {}", d.label))?;
                    if ev.verify != EvRes::Ok {
                        return Err(format!("genuine evidence for {} gives {:?}", d.label, ev.verify));
                    }
                    let p = &ev.json["evidence"]["Protocol"];
                    let err = p["error"].to_string();
                    let mut req = cfg.shape(ph.0).reqs.get(i as usize).cloned().unwrap_or_default();
                    req.this = (req.this | k) & a.combo(ph);
                    let req = cfg.shape(ph.0).possible(ph.1, a.me, g, req);
                    for (f, b) in [("direct_messages", D), ("echo_broadcasts", E), ("normal_broadcasts", N)] {
                        let n = p[f].as_array().map_or(0, |x| x.len());
                        let want = req.prev.values().filter(|bits| **bits & b != 0).count();
                        if n != want {
                            return Err(format!("genuine evidence for {} has {n} {f}, expected {want}", d.label));
                        }
                    }
                    let key = (ph, k, req.clone());
                    if !genuine.iter().any(|x| (x.1, x.2, x.3.clone()) == key && x.0 == g) {
                        genuine.push((g, ph, k, req, err, to_json(&d.msg)));
                    }
                }
            }
        }
        let errors: Vec<String> = genuine.iter().map(|x| x.4.clone()).collect::<BTreeSet<_>>().into_iter().collect();
        for (g, ph, _k, req, err, msg) in &genuine {
            for guilty in [*g, self.honest] {
                for session in [cfg.session, 2] {
                    if session == 2 && guilty == *g {
                        continue;
                    }
                    if session != cfg.session && m.home(guilty, session, *ph, D).is_none() {
                        continue;
                    }
                    let form = self.protocol_form(m, guilty, session, *ph, req, err, &errors, (guilty == *g).then_some(msg));
                    let base: Vec<&str> = form.slots.iter().map(|s| &s.near[0][..]).collect();
                    if mine() {
                        let before = t.verified;
                        t.judge(&form.name, guilty, &form.text(guilty, &base), None);
                        if guilty == *g && t.verified == before {
                            return Err(format!("{}: the assembled evidence does not verify", form.name));
                        }
                    }
                    for i in 0..base.len() {
                        for x in form.slots[i].near[1..].iter().chain(&form.slots[i].far) {
                            if mine() {
                                let mut c = base.clone();
                                c[i] = x;
                                t.judge(&format!("{}; other {}", form.name, form.slots[i].name), guilty, &form.text(guilty, &c), None);
                            }
                        }
                        if !self.pairs {
                            continue;
                        }
                        for j in i + 1..base.len() {
                            if std::time::Instant::now() > deadline {
                                cut = true;
                                break;
                            }
                            for x in &form.slots[i].near[1..] {
                                for y in &form.slots[j].near[1..] {
                                    if mine() {
                                        let mut c = base.clone();
                                        c[i] = x;
                                        c[j] = y;
                                        t.judge(
                                            &format!("{}; other {} and {}", form.name, form.slots[i].name, form.slots[j].name),
                                            guilty,
                                            &form.text(guilty, &c),
                                            None,
                                        );
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }

        // Everything else: all recombinations of signatures, metadata and contents.
        let core: Vec<&Pt> = m.parts.iter().filter(|p| p.core).collect();
        let mut pool: Vec<String> = m.parts.iter().map(|p| p.text.clone()).collect();
        let naturals = pool.clone();
        if self.recombine {
            // A signature, metadata, or content of one part in another one.
            let mut have: HashSet<String> = pool.iter().cloned().collect();
            let vals: Vec<Value> = m.parts.iter().filter(|p| p.plain).map(|p| serde_json::from_str(&p.text).unwrap()).collect();
            for x in &vals {
                for y in &vals {
                    for which in 0..3 {
                        let mut v = x.clone();
                        match which {
                            0 => v["signature"] = y["signature"].clone(),
                            1 => v["message_with_metadata"]["metadata"] = y["message_with_metadata"]["metadata"].clone(),
                            _ => v["message_with_metadata"]["message"] = y["message_with_metadata"]["message"].clone(),
                        }
                        let v = v.to_string();
                        if have.insert(v.clone()) {
                            pool.push(v);
                        }
                    }
                }
            }
        }
        let parties = cfg.parties();
        for guilty in parties.iter().copied() {
            for (k, f) in [(D, "InvalidDirectMessage"), (E, "InvalidEchoBroadcast"), (N, "InvalidNormalBroadcast")] {
                for p in &pool {
                    if mine() {
                        let text = format!("{{\"guilty_party\":{guilty},\"description\":\"\",\"evidence\":{{\"{f}\":{p}}}}}");
                        t.judge(f, guilty, &text, Some((k, p)));
                    }
                }
            }
            for p in pool.iter().filter(|_| !self.malformed_only) {
                for who in parties.iter().copied().chain([OUTSIDER]) {
                    if mine() {
                        let text = format!("{{\"guilty_party\":{guilty},\"description\":\"\",\"evidence\":{{\"InvalidEcho\":{{\"normal_broadcast\":{p},\"error\":{{\"invalid_echo_sender\":{who}}}}}}}}}");
                        t.judge("InvalidEcho", guilty, &text, None);
                    }
                }
            }
        }
        // Two broadcasts that differ. The hashes come from all packs and parts.
        let mut hashes: BTreeSet<String> = BTreeSet::new();
        for x in &m.packs {
            if cfg.fmt != Fmt::Json {
                break;
            }
            let v: Value = serde_json::from_str(&x.text).unwrap();
            let bytes = v["message_with_metadata"]["message"].as_str().map(unbase64).unwrap_or_default();
            if let Ok(p) = serde_json::from_slice::<Value>(&bytes) {
                for e in p["message_hashes"].as_array().into_iter().flatten() {
                    hashes.insert(e[1].to_string());
                }
            }
        }
        let values: BTreeSet<String> = hashes
            .iter()
            .map(|h| serde_json::from_str::<Value>(h).unwrap()["message_part_hash"].to_string())
            .collect();
        for p in core.iter().filter(|p| p.plain) {
            let v: Value = serde_json::from_str(&p.text).unwrap();
            for h in &values {
                hashes.insert(
                    json!({"signature": v["signature"], "metadata": v["message_with_metadata"]["metadata"],
                        "message_part_hash": serde_json::from_str::<Value>(h).unwrap()})
                    .to_string(),
                );
            }
        }
        for guilty in parties.iter().copied().filter(|_| !self.malformed_only) {
            let inner: Vec<u8> = if guilty == self.honest { parties.iter().copied().collect() } else { vec![guilty, self.honest] };
            for who in inner {
                for p in &naturals {
                    for h in &hashes {
                        if mine() {
                            let text = format!("{{\"guilty_party\":{guilty},\"description\":\"\",\"evidence\":{{\"MismatchedBroadcasts\":{{\"error\":{{\"guilty_party\":{who},\"we_received\":{p},\"echoed_to_us\":{h}}}}}}}}}");
                            t.judge("MismatchedBroadcasts", guilty, &text, None);
                        }
                    }
                }
            }
        }
        ctx.add(0, t.tried, t.tried);
        ctx.count("assemblies", t.tried);
        ctx.count("assemblies_rejected", t.rejected);
        ctx.count("assemblies_verified", t.verified);
        ctx.count("handed_to_protocol_verifiers", t.handed);
        if cut {
            ctx.incomplete(self.name.clone());
        }
        if lane == 0 {
            ctx.add(genuine.len() as u64, 0, 0);
            ctx.count("signed_parts", m.parts.len() as u64);
            ctx.sample(json!({"configuration": self.name, "signed_parts": m.parts.len(), "packs": m.packs.len(), "recombined_parts": pool.len(),
                "genuine_protocol_errors": genuine.len(), "assemblies_in_this_lane": t.tried, "verified": t.verified}));
        }
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!(
                "{} lane {lane}: {} parts ({} core), {} packs, {} recombined, {} hashes, {} genuine; {} tried, {} ok, {} handed, {:.1} s",
                self.name, m.parts.len(), core.len(), m.packs.len(), pool.len(), hashes.len(), genuine.len(), t.tried, t.verified, t.handed,
                t0.elapsed().as_secs_f64()
            );
        }
        Ok(())
    }
}
