//! One real session against everything that could arrive: all sequences of deliveries from a menu of messages, compared
//! step by step with a reference model.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::sync::Arc;

use crate::local::*;
use crate::node::*;
use crate::proto::*;
use crate::report::Ctx;
use crate::sp::*;
use crate::world::*;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Verdict {
    Ok,
    /// These parts do not have the declared form.
    Malformed(u8),
    Unprov,
    Prov,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ent {
    Is(Val),
    Broken,
}

#[derive(Debug, Clone)]
pub enum Body {
    Main { rcv: Rcv, verdict: Verdict },
    Pack { malformed: u8, entries: BTreeMap<u8, Ent> },
}

/// A message that may arrive, and what is true about it.
#[derive(Debug, Clone)]
pub struct Desc {
    pub from: u8,
    pub msg: Msg,
    pub label: String,
    pub meta_ok: bool,
    pub session_ok: bool,
    pub sig_ok: bool,
    /// `None` for a round which does not exist.
    pub ph: Option<Phase>,
    pub body: Body,
}

/// What the message led to once it was processed.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Blame {
    Malformed(u8, u16),
    Protocol(u16),
    FalseEcho(u16),
    Equivocation,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Model {
    pub idx: usize,
    pub done: bool,
    pub prov: BTreeMap<u8, Blame>,
    pub unprov: BTreeSet<u8>,
    pub processing: BTreeSet<u8>,
    pub inflight: BTreeMap<u8, u16>,
    pub pend: BTreeMap<u8, u16>,
    pub ok: BTreeMap<u8, u16>,
    pub answered: BTreeSet<u8>,
    pub cached: BTreeMap<(u8, Phase), u16>,
    pub calls: BTreeSet<(u8, u8, u8, u16)>,
    pub log: Vec<BTreeMap<u8, u16>>,
    /// Which messages of the senders that repeat nothing have arrived.
    pub arrived: BTreeSet<u16>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Why {
    Banned,
    Metadata,
    Session,
    Signature,
    Duplicate,
    Unexpected,
    Round,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Exp {
    Error(Why),
    ToProcess,
    Cached,
    /// Cached and never used, or an error.
    Ignored,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum OEv {
    /// Preprocess.
    Pre(u16),
    /// Process the accepted message of a sender.
    Proc(u8),
    /// Preprocess, and process if accepted.
    Deliver(u16),
    /// Process the handed over message of a sender.
    Cached(u8),
    Finalize,
}

pub struct Sys {
    pub cfg: Arc<Cfg>,
    pub me: u8,
    pub phases: Vec<Phase>,
    pub menu: Vec<Desc>,
    pub w0: Arc<World>,
    /// Senders that repeat nothing.
    pub once: BTreeSet<u8>,
    accept: Vec<BTreeSet<Phase>>,
    expects: Vec<BTreeSet<u8>>,
    dests: Vec<BTreeSet<u8>>,
}

impl Sys {
    pub fn new(cfg: &Arc<Cfg>, me: u8, w0: &Arc<World>, menu: Vec<Desc>) -> Sys {
        let phases = phases(cfg, me);
        Sys {
            cfg: cfg.clone(),
            me,
            menu,
            w0: w0.clone(),
            once: BTreeSet::new(),
            accept: phases.iter().map(|p| acceptable(cfg, me, *p)).collect(),
            expects: phases.iter().map(|p| phase_comm(cfg, me, *p).1).collect(),
            dests: phases.iter().map(|p| phase_comm(cfg, me, *p).0).collect(),
            phases,
        }
    }
    pub fn initial(&self) -> Model {
        Model {
            idx: 0,
            done: false,
            prov: BTreeMap::new(),
            unprov: BTreeSet::new(),
            processing: BTreeSet::new(),
            inflight: BTreeMap::new(),
            pend: BTreeMap::new(),
            ok: BTreeMap::new(),
            answered: BTreeSet::new(),
            cached: BTreeMap::new(),
            calls: BTreeSet::new(),
            log: Vec::new(),
            arrived: BTreeSet::new(),
        }
    }
    fn banned(&self, m: &Model, p: u8) -> bool {
        m.prov.contains_key(&p) || m.unprov.contains(&p)
    }

    pub fn pre(&self, m: &Model, i: u16) -> Exp {
        let d = &self.menu[i as usize];
        if self.banned(m, d.from) {
            return Exp::Error(Why::Banned);
        }
        if !d.meta_ok {
            return Exp::Error(Why::Metadata);
        }
        if !d.session_ok {
            return Exp::Error(Why::Session);
        }
        let here = self.phases[m.idx];
        let Some(ph) = d.ph else { return Exp::Error(Why::Round) };
        let accepted = if ph == here {
            if !self.expects[m.idx].contains(&d.from) {
                return Exp::Error(Why::Unexpected);
            }
            if m.processing.contains(&d.from) {
                return Exp::Error(Why::Duplicate);
            }
            Exp::ToProcess
        } else if self.accept[m.idx].contains(&ph) {
            if m.cached.contains_key(&(d.from, ph)) {
                return Exp::Error(Why::Duplicate);
            }
            if self.phases[..m.idx].contains(&ph) || self.parent(m.idx, ph) {
                Exp::Ignored
            } else {
                Exp::Cached
            }
        } else {
            return Exp::Error(Why::Round);
        };
        if !d.sig_ok {
            return Exp::Error(Why::Signature);
        }
        accepted
    }
    fn parent(&self, idx: usize, ph: Phase) -> bool {
        let here = self.phases[idx];
        ph.0 == here.0
            && !ph.2
            && self.cfg.shape(here.0).tinfo(here.1).parents.iter().any(|r| *r == ph.1)
    }
    pub fn apply_pre(&self, m: &mut Model, i: u16, exp: Exp) {
        let d = &self.menu[i as usize];
        if self.once.contains(&d.from) {
            m.arrived.insert(i);
        }
        match exp {
            Exp::Error(Why::Banned) => {}
            Exp::Error(_) => {
                m.unprov.insert(d.from);
            }
            Exp::ToProcess => {
                m.processing.insert(d.from);
                m.inflight.insert(d.from, i);
            }
            Exp::Cached | Exp::Ignored => {
                m.cached.insert((d.from, d.ph.unwrap()), i);
            }
        }
    }
    /// The effect of processing a message in the current phase.
    pub fn process(&self, m: &mut Model, i: u16) {
        let d = &self.menu[i as usize];
        let here = self.phases[m.idx];
        m.answered.insert(d.from);
        match &d.body {
            Body::Main { verdict, .. } => {
                if !matches!(verdict, Verdict::Malformed(_)) {
                    m.calls.insert((here.0, here.1, d.from, i));
                }
                match verdict {
                    Verdict::Ok => {
                        m.ok.insert(d.from, i);
                    }
                    Verdict::Malformed(k) => {
                        m.prov.entry(d.from).or_insert(Blame::Malformed(*k, i));
                    }
                    Verdict::Prov => {
                        m.prov.entry(d.from).or_insert(Blame::Protocol(i));
                    }
                    Verdict::Unprov => {
                        m.unprov.insert(d.from);
                    }
                }
            }
            Body::Pack { malformed, entries } => {
                if *malformed != 0 {
                    m.prov.entry(d.from).or_insert(Blame::Malformed(*malformed, i));
                    return;
                }
                let c = self.cfg.shape(here.0).comm(here.1, self.me);
                let mut keys = c.expects.clone();
                if c.echo == Part::Default {
                    keys.insert(self.me);
                }
                keys.remove(&d.from);
                if entries.keys().copied().collect::<BTreeSet<_>>() != keys {
                    m.unprov.insert(d.from);
                    return;
                }
                let got = m.log.last().expect("the main round");
                for (k, e) in entries {
                    match e {
                        Ent::Broken => {
                            m.prov.entry(d.from).or_insert(Blame::FalseEcho(i));
                            return;
                        }
                        Ent::Is(v) => {
                            let mine = if *k == self.me {
                                self.w0.val(here.0, here.1, E, self.me, BCAST)
                            } else {
                                match &self.menu[got[k] as usize].body {
                                    Body::Main { rcv, .. } => rcv.e.clone().unwrap(),
                                    _ => unreachable!(),
                                }
                            };
                            if mine != *v {
                                m.prov.entry(*k).or_insert(Blame::Equivocation);
                                return;
                            }
                        }
                    }
                }
                m.ok.insert(d.from, i);
            }
        }
    }
    pub fn can_finalize(&self, m: &Model) -> Cf {
        let exp = &self.expects[m.idx];
        if exp.iter().all(|p| m.ok.contains_key(p)) {
            Cf::Yes
        } else if exp
            .iter()
            .any(|p| !m.answered.contains(p) && (!self.banned(m, *p) || m.processing.contains(p)))
        {
            Cf::NotYet
        } else {
            Cf::Never
        }
    }
    pub fn finalize(&self, m: &mut Model) {
        let here = self.phases[m.idx];
        if !here.2 {
            m.log.push(std::mem::take(&mut m.ok));
        }
        m.ok.clear();
        m.processing.clear();
        m.inflight.clear();
        m.answered.clear();
        let echo_next = self.phases.get(m.idx + 1).is_some_and(|p| p.2);
        m.pend.clear();
        m.idx += 1;
        if m.idx == self.phases.len() {
            m.done = true;
            m.cached.clear();
            return;
        }
        let next = self.phases[m.idx];
        for ((from, ph), i) in std::mem::take(&mut m.cached) {
            if ph == next {
                if self.expects[m.idx].contains(&from) && !self.banned(m, from) {
                    m.pend.insert(from, i);
                    m.processing.insert(from);
                }
            } else if echo_next {
                m.cached.insert((from, ph), i);
            }
        }
    }
    fn in_echo_round(&self, m: &Model) -> bool {
        self.phases.get(m.idx).is_some_and(|p| p.2)
    }
    pub fn missing(&self, m: &Model) -> BTreeMap<String, BTreeSet<u8>> {
        if m.done {
            return BTreeMap::new();
        }
        let ph = self.phases[m.idx];
        let s: BTreeSet<u8> = self.expects[m.idx].difference(&m.answered).copied().collect();
        if s.is_empty() {
            BTreeMap::new()
        } else {
            BTreeMap::from([(self.cfg.round_name(ph.0, ph.1, ph.2), s)])
        }
    }
    fn rcv(&self, i: u16) -> Rcv {
        match &self.menu[i as usize].body {
            Body::Main { rcv, .. } => rcv.clone(),
            _ => unreachable!(),
        }
    }
    pub fn result(&self, m: &Model) -> RunLog {
        let mut log = Vec::new();
        let mut k = 0;
        for ph in &self.phases {
            if ph.2 {
                continue;
            }
            let combo = self.cfg.shape(ph.0).rounds[&ph.1].combo;
            let comm = self.cfg.shape(ph.0).comm(ph.1, self.me);
            let own = |kind: u8| {
                (combo & kind != 0 && !comm.dests.is_empty()).then(|| self.w0.val(ph.0, ph.1, kind, self.me, BCAST))
            };
            log.push(RoundRec {
                slot: ph.0,
                num: ph.1,
                own_e: own(E),
                own_n: own(N),
                recv: m.log[k].iter().map(|(p, i)| (*p, self.rcv(*i))).collect(),
                arts: comm
                    .dests
                    .iter()
                    .map(|to| {
                        let a = (combo & D != 0).then(|| Art {
                            to: *to,
                            round: ph.1,
                            fresh: self.w0.val(ph.0, ph.1, D, self.me, *to).fresh,
                        });
                        (*to, a)
                    })
                    .collect(),
                fin_fresh: 0,
            });
            k += 1;
        }
        RunLog(log)
    }
    pub fn calls(&self, m: &Model) -> Vec<(u8, u8, u8, Rcv)> {
        let mut v: Vec<_> = m.calls.iter().map(|(s, r, f, i)| (*s, *r, *f, self.rcv(*i))).collect();
        v.sort();
        v
    }
    pub fn label(&self, ev: OEv) -> String {
        let d = |i: u16| format!("{} [{}]", self.menu[i as usize].from, self.menu[i as usize].label);
        match ev {
            OEv::Pre(i) => format!("a message of {} arrives", d(i)),
            OEv::Deliver(i) => format!("a message of {} arrives, and is processed if accepted", d(i)),
            OEv::Proc(s) => format!("the message of {s} is processed"),
            OEv::Cached(s) => format!("the handed over message of {s} is processed"),
            OEv::Finalize => "finalize".into(),
        }
    }
}

/// What differs between the session and the model.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    /// A call failed.
    Failed,
    /// Accepted although it must be rejected, and why it must be.
    AcceptedBanned,
    AcceptedForged,
    AcceptedDuplicate,
    AcceptedUnexpected,
    AcceptedRound,
    /// A good message for this round was not accepted for it.
    NotAccepted,
    /// A good message for a later round was not kept for it.
    NotCached,
    /// A message of a banned party changed something.
    BannedEffect,
    CanFinalize,
    /// A different set of cached messages was handed over.
    HandedOver,
    /// A message of a banned party was handed over.
    HandedOverBanned,
    Calls,
    Result,
    Sends,
    /// Report.
    Outcome,
    Missing,
    Unprovable,
    Provable,
    /// A party which did nothing wrong is in the error lists.
    Innocent,
    /// A malformed part is not reported as such, or something else is.
    Malformed,
    /// An equivocation or false echo is not reported as such.
    EchoFault,
    /// The evidence.
    EvidenceKey,
    EvidenceVerify,
    EvidenceTrip,
    Evidence,
}

pub fn properties(k: Kind) -> &'static [&'static str] {
    match k {
        Kind::Failed => &["C02"],
        Kind::AcceptedBanned => &["C09"],
        Kind::AcceptedForged => &["C07"],
        Kind::AcceptedDuplicate => &["C08"],
        Kind::AcceptedUnexpected => &["C18", "C02"],
        Kind::AcceptedRound => &["C10"],
        Kind::NotAccepted => &["C18", "C03"],
        Kind::NotCached => &["C10"],
        Kind::BannedEffect => &["C09", "C12"],
        Kind::CanFinalize => &["C11"],
        Kind::HandedOver => &["C10"],
        Kind::HandedOverBanned => &["C09"],
        Kind::Calls => &["C18", "C08", "C10"],
        Kind::Result => &["C18", "C08"],
        Kind::Sends => &["C18"],
        Kind::Outcome => &["C12"],
        Kind::Missing => &["C12"],
        Kind::Unprovable => &["C12"],
        Kind::Provable => &["C12"],
        Kind::Innocent => &["C03", "C12"],
        Kind::Malformed => &["C19"],
        Kind::EchoFault => &["C06", "C03"],
        Kind::EvidenceKey => &["C05"],
        Kind::EvidenceVerify => &["C05"],
        Kind::EvidenceTrip => &["C05", "C17"],
        Kind::Evidence => &["C19", "C05"],
    }
}

#[derive(Debug, Clone)]
pub struct Diff {
    pub kinds: BTreeSet<Kind>,
    /// Properties this touches because of the circumstances.
    pub extra: BTreeSet<&'static str>,
    pub what: String,
    pub trace: Vec<String>,
}

struct Run {
    node: Option<Box<dyn NodeDyn>>,
    pend: BTreeMap<u8, usize>,
    infl: BTreeMap<u8, usize>,
    rep: Option<Rep>,
}

enum Seen {
    Pre(Pre),
    Quiet,
    Fin { sent: Vec<u8>, cached: Vec<u8> },
}

struct St {
    model: Model,
    parent: u32,
    ev: Option<OEv>,
}

pub struct Opened {
    pub states: u64,
    pub transitions: u64,
    pub executed: u64,
    pub complete: bool,
    pub diffs: Vec<Diff>,
    pub evidences: u64,
    pub finals: u64,
    /// Distinct evidence objects (JSON text) by the party they accuse.
    pub evidence_texts: BTreeMap<String, (u8, Blame)>,
}

#[derive(Clone)]
pub struct Opts {
    pub split: bool,
    pub max_states: usize,
    pub reports: bool,
    pub deadline: Option<std::time::Instant>,
}

fn fresh(sys: &Sys) -> Res<Run> {
    let mut n = make_node(&sys.cfg, sys.me, 0)?;
    n.make_all()?;
    Ok(Run { node: Some(n), pend: BTreeMap::new(), infl: BTreeMap::new(), rep: None })
}

fn exec(sys: &Sys, r: &mut Run, ev: OEv) -> Res<Seen> {
    match ev {
        OEv::Pre(i) | OEv::Deliver(i) => {
            let d = &sys.menu[i as usize];
            let n = r.node.as_mut().unwrap();
            let p = n.pre(d.from, d.msg.clone())?;
            if let Pre::ToProcess(x) = p {
                if matches!(ev, OEv::Deliver(_)) {
                    n.process_add(x)?;
                } else {
                    r.infl.insert(d.from, x);
                }
            }
            Ok(Seen::Pre(p))
        }
        OEv::Proc(s) => {
            let x = r.infl.remove(&s).expect("accepted message");
            r.node.as_mut().unwrap().process_add(x)?;
            Ok(Seen::Quiet)
        }
        OEv::Cached(s) => {
            let x = r.pend.remove(&s).expect("handed over message");
            r.node.as_mut().unwrap().process_add(x)?;
            Ok(Seen::Quiet)
        }
        OEv::Finalize => match r.node.take().unwrap().finalize()? {
            Fin::Done(rep) => {
                r.rep = Some(rep);
                Ok(Seen::Fin { sent: vec![], cached: vec![] })
            }
            Fin::Next { mut node, cached } => {
                let sent = node.make_all()?.into_iter().map(|(to, _)| to).collect();
                r.node = Some(node);
                r.pend = BTreeMap::new();
                r.infl = BTreeMap::new();
                let mut list = Vec::new();
                for (s, i) in cached {
                    r.pend.insert(s, i);
                    list.push(s);
                }
                Ok(Seen::Fin { sent, cached: list })
            }
        },
    }
}

fn key(model: &Model, r: &Run) -> u128 {
    let mut h = MixHash::default();
    let mut w = String::new();
    let _ = write!(w, "{model:?}");
    h.feed(w.as_bytes());
    if let Some(n) = &r.node {
        n.feed_debug(&mut h);
    }
    let (a, b) = h.out();
    ((a as u128) << 64) | b as u128
}

fn real_key(r: &Run) -> u128 {
    r.node.as_ref().unwrap().state_key()
}

pub fn explore(sys: &Sys, opts: &Opts) -> Opened {
    let mut out = Opened {
        states: 0,
        transitions: 0,
        executed: 0,
        complete: true,
        diffs: Vec::new(),
        evidences: 0,
        finals: 0,
        evidence_texts: BTreeMap::new(),
    };
    let mut states: Vec<St> = Vec::new();
    let mut seen: HashMap<u128, u32> = HashMap::new();
    let mut checked_ev: HashSet<u128> = HashSet::new();
    let r = match fresh(sys) {
        Ok(r) => r,
        Err(f) => {
            out.diffs.push(Diff {
                kinds: [Kind::Failed].into(),
                extra: ["C01"].into(),
                what: format!("creation of the session {f}"),
                trace: vec![],
            });
            return out;
        }
    };
    let m = sys.initial();
    seen.insert(key(&m, &r), 0);
    states.push(St { model: m, parent: 0, ev: None });
    let mut kinds_seen: BTreeMap<Kind, usize> = BTreeMap::new();
    let mut next = 0;
    while next < states.len() {
        if states.len() > opts.max_states || opts.deadline.is_some_and(|d| std::time::Instant::now() > d) {
            out.complete = false;
            break;
        }
        let cur = next as u32;
        next += 1;
        let model = states[cur as usize].model.clone();
        // The history leading here.
        let mut hist = Vec::new();
        let mut s = cur;
        while let Some(ev) = states[s as usize].ev {
            hist.push(ev);
            s = states[s as usize].parent;
        }
        hist.reverse();
        let replay = |out: &mut Opened| -> Run {
            let mut r = fresh(sys).expect("replays");
            for ev in &hist {
                out.executed += 1;
                let _ = exec(sys, &mut r, *ev).expect("replays");
            }
            r
        };
        let trace = |more: Option<OEv>| {
            let mut v = vec![format!("party {} runs {}", sys.me, sys.cfg.name)];
            v.extend(hist.iter().map(|e| sys.label(*e)));
            v.extend(more.map(|e| sys.label(e)));
            v
        };
        let mut diff = |out: &mut Opened, kinds: &[Kind], extra: &[&'static str], what: String, more: Option<OEv>| {
            for k in kinds {
                *kinds_seen.entry(*k).or_default() += 1;
            }
            if kinds.iter().any(|k| kinds_seen[k] <= 3) {
                out.diffs.push(Diff {
                    kinds: kinds.iter().copied().collect(),
                    extra: extra.iter().copied().collect(),
                    what,
                    trace: trace(more),
                });
            }
        };
        let mut r = replay(&mut out);
        if model.done {
            out.finals += 1;
            let rep = r.rep.take().expect("a report");
            check_report(sys, &model, &rep, None, &mut out, &mut checked_ev, &mut diff);
            continue;
        }
        let mut evs = Vec::new();
        let mut inert = Vec::new();
        for i in 0..sys.menu.len() as u16 {
            if sys.pre(&model, i) == Exp::Error(Why::Banned) {
                inert.push(i);
            } else if model.arrived.contains(&i) {
            } else if opts.split {
                evs.push(OEv::Pre(i));
            } else {
                evs.push(OEv::Deliver(i));
            }
        }
        evs.extend(model.inflight.keys().map(|s| OEv::Proc(*s)));
        evs.extend(model.pend.keys().map(|s| OEv::Cached(*s)));
        let cf = sys.can_finalize(&model);
        if cf == Cf::Yes {
            evs.push(OEv::Finalize);
        }
        // Messages of excluded parties.
        let before = real_key(&r);
        let mut broken = false;
        for i in &inert {
            out.transitions += 1;
            out.executed += 1;
            let ev = OEv::Pre(*i);
            match exec(sys, &mut r, ev) {
                Err(f) => {
                    diff(&mut out, &[Kind::Failed], &["C09"], format!("a message of an excluded party: the call {f}"), Some(ev));
                    broken = true;
                    break;
                }
                Ok(Seen::Pre(Pre::Error(_))) => {}
                Ok(Seen::Pre(p)) => {
                    let mut ex = vec![];
                    let d = &sys.menu[*i as usize];
                    if !d.sig_ok || !d.meta_ok || !d.session_ok {
                        ex.push("C07");
                    }
                    diff(&mut out, &[Kind::AcceptedBanned], &ex, format!("a message of an excluded party gives {p:?}"), Some(ev));
                    broken = true;
                    break;
                }
                Ok(_) => unreachable!(),
            }
        }
        if broken {
            r = replay(&mut out);
        } else if real_key(&r) != before {
            diff(
                &mut out,
                &[Kind::BannedEffect],
                &[],
                format!("rejected messages of excluded parties ({:?}) change the state", inert.iter().map(|i| &sys.menu[*i as usize].label).collect::<Vec<_>>()),
                inert.first().map(|i| OEv::Pre(*i)),
            );
            r = replay(&mut out);
        }
        match r.node.as_ref().unwrap().can_finalize() {
            Ok(c) if c == cf => {}
            Ok(c) => {
                diff(&mut out, &[Kind::CanFinalize], &[], format!("can_finalize is {c:?}, expected {cf:?}; {}", brief(sys, &model)), None)
            }
            Err(f) => diff(&mut out, &[Kind::Failed], &["C11"], format!("can_finalize {f}"), None),
        }
        let mut calls = r.node.as_ref().unwrap().obs().calls.lock().unwrap().clone();
        calls.sort();
        if calls != sys.calls(&model) {
            diff(&mut out, &[Kind::Calls], &[], format!("the protocol received {calls:?}, expected {:?}", sys.calls(&model)), None);
        }
        if opts.reports {
            out.executed += 1;
            match r.node.take().unwrap().terminate(cf == Cf::Never) {
                Err(f) => diff(&mut out, &[Kind::Failed], &["C12"], format!("termination {f}"), None),
                Ok(rep) => check_report(sys, &model, &rep, Some(cf == Cf::Never), &mut out, &mut checked_ev, &mut diff),
            }
        }
        // Everything else leads to other states.
        for ev in evs {
            out.transitions += 1;
            let mut r = replay(&mut out);
            out.executed += 1;
            let mut m = model.clone();
            let seen_now = match exec(sys, &mut r, ev) {
                Ok(s) => s,
                Err(f) => {
                    let extra: &[&'static str] = match ev {
                        OEv::Finalize => &["C11"],
                        OEv::Deliver(i) if matches!(sys.menu[i as usize].body, Body::Main { verdict: Verdict::Prov, .. }) => &["C22"],
                        OEv::Pre(i) | OEv::Deliver(i) => match sys.pre(&model, i) {
                            Exp::Error(Why::Duplicate) => &["C08"],
                            Exp::Error(_) => &["C07"],
                            _ => &[],
                        },
                        _ => &[],
                    };
                    diff(&mut out, &[Kind::Failed], extra, format!("{}: the call {f}", sys.label(ev)), Some(ev));
                    continue;
                }
            };
            match (ev, seen_now) {
                (OEv::Pre(i) | OEv::Deliver(i), Seen::Pre(p)) => {
                    let mut exp = sys.pre(&model, i);
                    let agree = match (exp, &p) {
                        (Exp::Error(_), Pre::Error(_)) => true,
                        (Exp::ToProcess, Pre::ToProcess(_)) => true,
                        (Exp::Cached, Pre::Cached) => true,
                        (Exp::Ignored, Pre::Cached) => true,
                        (Exp::Ignored, Pre::Error(_)) => {
                            exp = Exp::Error(Why::Round);
                            true
                        }
                        _ => false,
                    };
                    if !agree {
                        let k = match exp {
                            Exp::Error(Why::Banned) => Kind::AcceptedBanned,
                            Exp::Error(Why::Metadata | Why::Session | Why::Signature) => Kind::AcceptedForged,
                            Exp::Error(Why::Duplicate) => Kind::AcceptedDuplicate,
                            Exp::Error(Why::Unexpected) => Kind::AcceptedUnexpected,
                            Exp::Error(Why::Round) => Kind::AcceptedRound,
                            Exp::ToProcess => Kind::NotAccepted,
                            Exp::Cached => Kind::NotCached,
                            Exp::Ignored => Kind::AcceptedRound,
                        };
                        let mut extra = vec![];
                        let d = &sys.menu[i as usize];
                        if !matches!(p, Pre::Error(_)) && (!d.sig_ok || !d.meta_ok || !d.session_ok) {
                            extra.push("C07");
                        }
                        if matches!(k, Kind::NotCached | Kind::NotAccepted) && matches!(p, Pre::Error(_)) {
                            extra.extend(["C03", "C12"]);
                        }
                        diff(&mut out, &[k], &extra, format!("{} gives {p:?}, expected {exp:?}", sys.label(ev)), Some(ev));
                        continue;
                    }
                    sys.apply_pre(&mut m, i, exp);
                    if matches!(ev, OEv::Deliver(_)) && exp == Exp::ToProcess {
                        let d = m.inflight.remove(&sys.menu[i as usize].from).unwrap();
                        sys.process(&mut m, d);
                    }
                }
                (OEv::Proc(s), _) => {
                    let i = m.inflight.remove(&s).unwrap();
                    sys.process(&mut m, i);
                }
                (OEv::Cached(s), _) => {
                    let i = m.pend.remove(&s).unwrap();
                    sys.process(&mut m, i);
                }
                (OEv::Finalize, Seen::Fin { sent, cached }) => {
                    sys.finalize(&mut m);
                    if m.done != r.rep.is_some() {
                        diff(&mut out, &[Kind::Result], &[], format!("finished: {}, expected {}", r.rep.is_some(), m.done), Some(ev));
                        continue;
                    }
                    if !m.done {
                        let want: Vec<u8> = m.pend.keys().copied().collect();
                        let mut got = cached.clone();
                        got.sort();
                        if got != want {
                            let banned = got.iter().any(|s| sys.banned(&m, *s));
                            let k = if banned { Kind::HandedOverBanned } else { Kind::HandedOver };
                            diff(&mut out, &[k], &[], format!("messages of {got:?} are handed over, expected {want:?}"), Some(ev));
                            continue;
                        }
                        let want: Vec<u8> = sys.dests[m.idx].iter().copied().collect();
                        if sent != want || r.node.as_ref().unwrap().round() != sys.cfg.round_name(sys.phases[m.idx].0, sys.phases[m.idx].1, sys.phases[m.idx].2) {
                            diff(&mut out, &[Kind::Sends], &[], format!("{} sends to {sent:?}, expected {want:?}", r.node.as_ref().unwrap().round()), Some(ev));
                            continue;
                        }
                    }
                }
                _ => unreachable!(),
            }
            let k = key(&m, &r);
            let n = states.len() as u32;
            if *seen.entry(k).or_insert(n) == n {
                states.push(St { model: m, parent: cur, ev: Some(ev) });
            }
        }
    }
    out.states = states.len() as u64;
    out
}

fn brief(sys: &Sys, m: &Model) -> String {
    format!(
        "expected from {:?}, applied {:?}, answered {:?}, in progress {:?}, excluded {:?}",
        sys.expects[m.idx],
        m.ok.keys().collect::<Vec<_>>(),
        m.answered,
        m.processing,
        m.prov.keys().chain(m.unprov.iter()).collect::<BTreeSet<_>>()
    )
}

fn signature_of(d: &Desc, kind: u8) -> String {
    crate::adv::to_json(&d.msg)[crate::adv::field(kind)]["signature"].as_str().unwrap().to_string()
}

fn check_report(
    sys: &Sys,
    m: &Model,
    rep: &Rep,
    due: Option<bool>,
    out: &mut Opened,
    checked: &mut HashSet<u128>,
    diff: &mut impl FnMut(&mut Opened, &[Kind], &[&'static str], String, Option<OEv>),
) {
    match (&rep.outcome, due) {
        (Out::Result(log), None) => {
            let want = sys.result(m);
            if strip(log) != want {
                diff(out, &[Kind::Result], &[], format!("the result is {:?}, expected {want:?}", strip(log)), None);
            }
        }
        (Out::NotEnough, Some(true)) | (Out::Terminated, Some(false)) => {}
        (o, _) => diff(out, &[Kind::Outcome], &[], format!("the outcome is {o:?} (ended because of errors: {due:?})"), None),
    }
    let missing = sys.missing(m);
    if rep.missing != missing {
        diff(out, &[Kind::Missing], &[], format!("missing messages are {:?}, expected {missing:?}", rep.missing), None);
    }
    let innocent = |p: &u8| !m.prov.contains_key(p) && !m.unprov.contains(p);
    let got: BTreeSet<u8> = rep.unprovable.keys().copied().collect();
    if got != m.unprov {
        let mut k = vec![Kind::Unprovable];
        if got.iter().any(innocent) {
            k.push(Kind::Innocent);
        }
        // A pack which should have been rejected.
        let extra: &[&'static str] = if m.unprov.difference(&got).any(|p| m.answered.contains(p) && !m.ok.contains_key(p)) && sys.in_echo_round(m) {
            &["C06"]
        } else {
            &[]
        };
        diff(out, &k, extra, format!("unprovable errors are {:?}, expected of {:?}", rep.unprovable, m.unprov), None);
    }
    let got: BTreeSet<u8> = rep.provable.keys().copied().collect();
    let want: BTreeSet<u8> = m.prov.keys().copied().collect();
    if got != want {
        let mut k = vec![Kind::Provable];
        if got.iter().any(innocent) {
            k.push(Kind::Innocent);
        }
        for p in want.difference(&got) {
            match m.prov[p] {
                Blame::Malformed(..) => k.push(Kind::Malformed),
                Blame::FalseEcho(_) | Blame::Equivocation => k.push(Kind::EchoFault),
                Blame::Protocol(_) => {}
            }
        }
        let list: Vec<_> = rep.provable.iter().map(|(k, v)| (k, &v.desc)).collect();
        diff(out, &k, &[], format!("provable errors are {list:?}, expected {:?}", m.prov), None);
    }
    for (p, ev) in &rep.provable {
        if ev.guilty != *p {
            diff(out, &[Kind::EvidenceKey], &[], format!("evidence against {} is stored under {p}", ev.guilty), None);
            continue;
        }
        if !checked.insert(hash128(ev.json_text.as_bytes()) ^ *p as u128) {
            continue;
        }
        out.evidences += 1;
        if let Some(b) = m.prov.get(p) {
            out.evidence_texts.insert(ev.json_text.clone(), (*p, b.clone()));
        }
        if ev.verify != EvRes::Ok {
            let extra: &[&'static str] = match m.prov.get(p) {
                Some(Blame::Malformed(..)) => &["C19"],
                Some(Blame::Equivocation) => &["C06"],
                Some(Blame::Protocol(_)) => &["C22"],
                _ => &[],
            };
            diff(out, &[Kind::EvidenceVerify], extra, format!("the evidence against {p} ({}) gives {:?}", ev.desc, ev.verify), None);
        }
        let magics = sys.cfg.magics();
        let a = verify_json(&sys.cfg, &ev.json_text, magics);
        let b = verify_bin(&sys.cfg, &ev.bin, magics);
        for (name, x) in [("JSON", a), ("binary", b)] {
            if x != (ev.verify.clone(), Some(ev.guilty)) {
                diff(out, &[Kind::EvidenceTrip], &[], format!("the evidence against {p} read back from {name} gives {x:?}"), None);
            }
        }
        match m.prov.get(p) {
            Some(Blame::Malformed(kinds, i)) => {
                let d = &sys.menu[*i as usize];
                for k in [D, E, N] {
                    let has = ev.json_text.contains(&signature_of(d, k));
                    if has != (kinds & k != 0) {
                        diff(out, &[Kind::Evidence, Kind::Malformed], &[], format!("evidence of malformedness of parts {kinds} contains part {k}: {has}"), None);
                    }
                }
            }
            Some(Blame::Protocol(i)) => {
                if !ev.desc.contains("bad tag") {
                    diff(out, &[Kind::Evidence], &["C22"], format!("evidence for {} is {}", sys.menu[*i as usize].label, ev.desc), None);
                }
            }
            Some(Blame::FalseEcho(i)) => {
                if !ev.json_text.contains(&signature_of(&sys.menu[*i as usize], N)) {
                    diff(out, &[Kind::Evidence, Kind::EchoFault], &[], "the false echo is not in the evidence".into(), None);
                }
            }
            _ => {}
        }
    }
}

pub struct OpenJob {
    pub sys: Sys,
    pub opts: Opts,
    pub name: String,
}

pub fn run(ctx: &Ctx, jobs: &[OpenJob]) {
    ctx.par(jobs, |job| {
        let name = format!("{} at {}: {}", job.sys.cfg.name, job.sys.me, job.name);
        if !ctx.wants(&name) {
            return;
        }
        let t = std::time::Instant::now();
        let opts = Opts { deadline: Some(ctx.deadline()), ..job.opts.clone() };
        let r = explore(&job.sys, &opts);
        ctx.add(r.states, r.transitions, r.executed);
        ctx.count("evidence_objects", r.evidences);
        ctx.count("menu_messages", job.sys.menu.len() as u64);
        ctx.count("completed_runs", r.finals);
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!(
                "{name}: menu {}, {} states, {} transitions, {} executed, complete {}, {} diffs, {} final, {:.2} s",
                job.sys.menu.len(), r.states, r.transitions, r.executed, r.complete, r.diffs.len(), r.finals, t.elapsed().as_secs_f64()
            );
        }
        ctx.sample(serde_json::json!({
            "configuration": name, "menu": job.sys.menu.iter().map(|d| format!("{}: {}", d.from, d.label)).collect::<Vec<_>>(),
            "states": r.states, "transitions": r.transitions, "evidence": r.evidences,
        }));
        if !r.complete {
            ctx.incomplete(name.clone());
        }
        for d in r.diffs {
            let hit = d.extra.contains(ctx.property.as_str())
                || d.kinds.iter().any(|k| properties(*k).contains(&ctx.property.as_str()))
                || ctx.property == "ALL"
                || ctx.property == "C15";
            if hit {
                let mut trace = vec![format!("configuration: {name}")];
                trace.extend(d.trace);
                ctx.violation(format!("{:?}: {}", d.kinds, name), d.what, trace);
            }
        }
    });
}
