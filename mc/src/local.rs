//! Local histories of real nodes: interned states, memoized transitions.
//!
//! A session cannot be cloned, so a local state is represented by one of the histories leading to it, and a transition
//! is executed by replaying that history on a fresh session. Two histories are merged if the complete debug rendering
//! of session and accumulator, the messages consumed, the calls made to the protocol and the parts it created agree.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Arc;

use crate::node::*;
use crate::proto::*;
use crate::sp::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ev {
    /// A message arrives and is preprocessed, processed and added.
    Deliver(u32),
    /// The cached message of this sender handed over at the last finalization is processed and added.
    Cached(u8),
    Finalize,
}

pub struct MsgInfo {
    pub from: u8,
    pub to: u8,
    pub msg: Msg,
    pub label: String,
}

pub struct Loc {
    pub node: u8,
    pub parent: Option<(u32, Ev)>,
    pub depth: u32,
    pub round: String,
    pub cf: Cf,
    pub pend: BTreeSet<u8>,
    pub done: Option<Rc<Rep>>,
    /// How the last delivery was answered.
    pub last: Option<Pre>,
    pub consumed: BTreeSet<u32>,
    pub calls: Vec<(u8, u8, u8, Rcv)>,
}

#[derive(Clone)]
pub enum Step {
    Next(u32, Rc<Vec<u32>>),
    Fail(Fail),
}

pub struct LocalSys {
    pub cfg: Arc<Cfg>,
    pub msgs: Vec<MsgInfo>,
    msg_index: HashMap<u128, u32>,
    pub locs: Vec<Loc>,
    loc_index: HashMap<u128, u32>,
    trans: HashMap<(u32, Ev), Step>,
    pub made: HashMap<(u8, u8, u8, u8, u8), BTreeSet<Val>>,
    pub executed: u64,
    /// Randomness variant per node.
    pub variants: BTreeMap<u8, u64>,
}

impl LocalSys {
    pub fn new(cfg: &Arc<Cfg>) -> LocalSys {
        LocalSys {
            cfg: cfg.clone(),
            msgs: Vec::new(),
            msg_index: HashMap::new(),
            locs: Vec::new(),
            loc_index: HashMap::new(),
            trans: HashMap::new(),
            made: HashMap::new(),
            executed: 0,
            variants: BTreeMap::new(),
        }
    }

    pub fn intern(&mut self, from: u8, to: u8, msg: Msg, label: &str) -> u32 {
        let mut text = serde_json::to_string(&msg).expect("messages are serializable");
        text.push_str(&format!("|{from}|{to}"));
        let key = hash128(text.as_bytes());
        let n = self.msgs.len() as u32;
        let id = *self.msg_index.entry(key).or_insert(n);
        if id == n {
            self.msgs.push(MsgInfo { from, to, msg, label: label.into() });
        }
        id
    }

    fn fresh(&self, node: u8) -> Res<Box<dyn NodeDyn>> {
        make_node(&self.cfg, node, self.variants.get(&node).copied().unwrap_or(0))
    }

    /// The initial state of a node and the messages it sends.
    pub fn start(&mut self, node: u8) -> Step {
        let r = (|| {
            let mut n = self.fresh(node)?;
            let sent = n.make_all()?;
            Ok((n, sent))
        })();
        match r {
            Err(f) => Step::Fail(f),
            Ok((n, sent)) => self.finish(node, None, Some(n), BTreeMap::new(), None, None, sent),
        }
    }

    pub fn history(&self, mut loc: u32) -> Vec<Ev> {
        let mut v = Vec::new();
        while let Some((p, ev)) = self.locs[loc as usize].parent {
            v.push(ev);
            loc = p;
        }
        v.reverse();
        v
    }

    /// A fresh session brought into the given state.
    pub fn replay(&mut self, loc: u32) -> (Box<dyn NodeDyn>, BTreeMap<u8, usize>) {
        let hist = self.history(loc);
        let mut n = self.fresh(self.locs[loc as usize].node).expect("replays");
        n.make_all().expect("replays");
        let mut pend = BTreeMap::new();
        for ev in hist {
            let (n2, p2, _, _) = self.apply(n, pend, ev).expect("replays").expect("not finished");
            n = n2;
            pend = p2;
        }
        (n, pend)
    }

    #[allow(clippy::type_complexity)]
    fn apply(
        &mut self,
        mut n: Box<dyn NodeDyn>,
        mut pend: BTreeMap<u8, usize>,
        ev: Ev,
    ) -> Res<Result<(Box<dyn NodeDyn>, BTreeMap<u8, usize>, Option<Pre>, Vec<(u8, Msg)>), Rep>> {
        self.executed += 1;
        let mut last = None;
        let mut sent = Vec::new();
        match ev {
            Ev::Deliver(m) => {
                let info = &self.msgs[m as usize];
                let pre = n.pre(info.from, info.msg.clone())?;
                if let Pre::ToProcess(i) = pre {
                    n.process_add(i)?;
                }
                last = Some(pre);
            }
            Ev::Cached(s) => {
                let i = pend.remove(&s).expect("cached message");
                n.process_add(i)?;
            }
            Ev::Finalize => match n.finalize()? {
                Fin::Done(rep) => return Ok(Err(rep)),
                Fin::Next { node, cached } => {
                    n = node;
                    sent = n.make_all()?;
                    pend = BTreeMap::new();
                    for (s, i) in cached {
                        if pend.insert(s, i).is_some() {
                            return Err(Fail::Local(format!("harness: two cached messages of {s} were handed over")));
                        }
                    }
                }
            },
        }
        Ok(Ok((n, pend, last, sent)))
    }

    #[allow(clippy::too_many_arguments)]
    fn finish(
        &mut self,
        node: u8,
        parent: Option<(u32, Ev)>,
        n: Option<Box<dyn NodeDyn>>,
        pend: BTreeMap<u8, usize>,
        last: Option<Pre>,
        rep: Option<Rep>,
        sent: Vec<(u8, Msg)>,
    ) -> Step {
        let mut consumed = parent.map(|(p, _)| self.locs[p as usize].consumed.clone()).unwrap_or_default();
        if let (Some((_, Ev::Deliver(m))), Some(Pre::ToProcess(_) | Pre::Cached)) = (parent, &last) {
            consumed.insert(m);
        }
        let mut h = MixHash::default();
        h.feed(&[node, rep.is_some() as u8]);
        h.feed(format!("{pend:?}").as_bytes());
        h.feed(format!("{consumed:?}").as_bytes());
        let (round, cf, calls);
        if let Some(n) = &n {
            n.feed_debug(&mut h);
            round = n.round();
            cf = match n.can_finalize() {
                Ok(c) => c,
                Err(f) => return Step::Fail(f),
            };
            let obs = n.obs();
            for v in obs.made.lock().unwrap().iter() {
                self.made.entry((v.slot, v.round, v.kind, v.from, v.to)).or_default().insert(v.clone());
            }
            let mut c = obs.calls.lock().unwrap().clone();
            c.sort();
            calls = c;
        } else {
            let p = &self.locs[parent.unwrap().0 as usize];
            round = p.round.clone();
            cf = Cf::Yes;
            calls = p.calls.clone();
            let r = rep.as_ref().unwrap();
            h.feed(
                format!(
                    "{:?}{:?}{:?}{:?}",
                    r.outcome,
                    r.provable.iter().map(|(k, v)| (k, &v.json_text)).collect::<Vec<_>>(),
                    r.unprovable,
                    r.missing
                )
                .as_bytes(),
            );
        }
        h.feed(format!("{calls:?}").as_bytes());
        let (a, b) = h.out();
        let key = ((a as u128) << 64) | b as u128;
        let sent = sent.into_iter().map(|(to, m)| self.intern(node, to, m, &format!("{round}"))).collect::<Vec<_>>();
        let id = self.locs.len() as u32;
        let got = *self.loc_index.entry(key).or_insert(id);
        if got == id {
            self.locs.push(Loc {
                node,
                parent,
                depth: parent.map_or(0, |(p, _)| self.locs[p as usize].depth + 1),
                round,
                cf,
                pend: pend.keys().copied().collect(),
                done: rep.map(Rc::new),
                last,
                consumed,
                calls,
            });
        }
        Step::Next(got, Rc::new(sent))
    }

    /// Executes (or recalls) a transition.
    pub fn step(&mut self, loc: u32, ev: Ev) -> (Step, bool) {
        if let Some(s) = self.trans.get(&(loc, ev)) {
            return (s.clone(), false);
        }
        let (n, pend) = self.replay(loc);
        let node = self.locs[loc as usize].node;
        let s = match self.apply(n, pend, ev) {
            Err(f) => Step::Fail(f),
            Ok(Err(rep)) => {
                self.finish(node, Some((loc, ev)), None, BTreeMap::new(), None, Some(rep), Vec::new())
            }
            Ok(Ok((n, pend, last, sent))) => self.finish(node, Some((loc, ev)), Some(n), pend, last, None, sent),
        };
        self.trans.insert((loc, ev), s.clone());
        (s, true)
    }

    /// The report if the session were terminated in this state.
    pub fn report_now(&mut self, loc: u32, due_to_errors: bool) -> Res<Rc<Rep>> {
        if let Some(r) = &self.locs[loc as usize].done {
            return Ok(r.clone());
        }
        let (n, _) = self.replay(loc);
        n.terminate(due_to_errors).map(Rc::new)
    }

    pub fn msg_label(&self, m: u32) -> String {
        let i = &self.msgs[m as usize];
        format!("{} -> {} [{}]", i.from, i.to, i.label)
    }
    pub fn ev_label(&self, ev: Ev) -> String {
        match ev {
            Ev::Deliver(m) => format!("deliver {}", self.msg_label(m)),
            Ev::Cached(s) => format!("process the cached message of {s}"),
            Ev::Finalize => "finalize".into(),
        }
    }
    pub fn trace_of(&self, loc: u32) -> Vec<String> {
        let mut v = vec![format!("node {} starts ({})", self.locs[loc as usize].node, self.cfg.name)];
        for ev in self.history(loc) {
            v.push(format!("node {}: {}", self.locs[loc as usize].node, self.ev_label(ev)));
        }
        v
    }
}

/// The phases (slot, round, is echo) an honest node goes through when nothing goes wrong.
pub fn phases(cfg: &Cfg, id: u8) -> Vec<(u8, u8, bool)> {
    let mut v = Vec::new();
    for slot in cfg.slots() {
        let shape = cfg.shape(slot);
        let mut num = Some(shape.entry);
        while let Some(r) = num {
            v.push((slot, r, false));
            if shape.echo_confirms(r, id).is_some() {
                v.push((slot, r, true));
            }
            num = shape.next(r, id);
        }
    }
    v
}

/// (destinations, expected senders) of a phase.
pub fn phase_comm(cfg: &Cfg, id: u8, ph: (u8, u8, bool)) -> (BTreeSet<u8>, BTreeSet<u8>) {
    let c = cfg.shape(ph.0).comm(ph.1, id);
    if !ph.2 {
        return (c.dests, c.expects);
    }
    match c.echo {
        Part::Receive(t) => (t.clone(), t),
        _ => (c.dests.clone(), c.dests),
    }
}

/// The phases of which messages are acceptable in a phase, as declared by the protocol.
pub fn acceptable(cfg: &Cfg, id: u8, ph: (u8, u8, bool)) -> BTreeSet<(u8, u8, bool)> {
    let shape = cfg.shape(ph.0);
    let t = shape.tinfo(ph.1);
    let echo = shape.echo_confirms(ph.1, id).is_some();
    let num = |r: &manul::protocol::RoundId| (0..=255u8).find(|n| r == n).unwrap();
    let mut v = BTreeSet::from([ph]);
    for c in &t.children {
        v.insert((ph.0, num(c), false));
    }
    let slots = cfg.slots();
    if t.may_produce_result && ph.0 != *slots.last().unwrap() {
        v.insert((ph.0 + 1, cfg.shape(ph.0 + 1).entry, false));
    }
    if ph.2 {
        v.insert((ph.0, ph.1, false));
    } else {
        if echo {
            v.insert((ph.0, ph.1, true));
        } else {
            for c in &t.parents {
                v.insert((ph.0, num(c), false));
            }
        }
        for c in &t.siblings {
            v.insert((ph.0, num(c), false));
        }
    }
    v
}

/// Whether in every execution of the (ideal) protocol a party only ever gets messages of phases that its current phase
/// declares as simultaneous - the condition under which the library promises to work.
pub fn adjacent(cfg: &Cfg) -> bool {
    let ids: Vec<u8> = cfg.parties().into_iter().collect();
    let ph: BTreeMap<u8, Vec<_>> = ids.iter().map(|i| (*i, phases(cfg, *i))).collect();
    for i in &ids {
        for stuck in 0..ph[i].len() {
            // How far the others get while `i` stays in its phase number `stuck`.
            let mut at: BTreeMap<u8, usize> = ids.iter().map(|j| (*j, 0)).collect();
            at.insert(*i, stuck);
            loop {
                let mut changed = false;
                for j in ids.iter().filter(|j| *j != i) {
                    let here = at[j];
                    if here >= ph[j].len() {
                        continue;
                    }
                    let (_, expects) = phase_comm(cfg, *j, ph[j][here]);
                    let all = expects.iter().all(|k| {
                        let until = (at[k] + 1).min(ph[k].len());
                        ph[k][..until].contains(&ph[j][here])
                    });
                    if all {
                        at.insert(*j, here + 1);
                        changed = true;
                    }
                }
                if !changed {
                    break;
                }
            }
            let acc = acceptable(cfg, *i, ph[i][stuck]);
            let (mut gotten, mut needed) = (BTreeSet::new(), BTreeSet::new());
            for (k, p) in ph[i].iter().enumerate() {
                for s in phase_comm(cfg, *i, *p).1 {
                    needed.insert((s, *p));
                    if k < stuck {
                        gotten.insert((s, *p));
                    }
                }
            }
            for j in ids.iter().filter(|j| *j != i) {
                for p in &ph[j][..(at[j] + 1).min(ph[j].len())] {
                    let (dests, _) = phase_comm(cfg, *j, *p);
                    if dests.contains(i) && !gotten.contains(&(*j, *p)) && !acc.contains(p) {
                        return false;
                    }
                }
            }
        }
    }
    true
}

/// What the protocol is finalized with in an undisturbed execution.
pub fn expected_log(cfg: &Cfg, id: u8, made: &HashMap<(u8, u8, u8, u8, u8), BTreeSet<Val>>) -> Result<RunLog, String> {
    let get = |slot: u8, round: u8, kind: u8, from: u8, to: u8| -> Result<Val, String> {
        match made.get(&(slot, round, kind, from, to)) {
            Some(s) if s.len() == 1 => Ok(s.iter().next().unwrap().clone()),
            Some(s) => Err(format!("part {kind} of round {round} for {to} was created by {from} in {} versions", s.len())),
            None => Err(format!("part {kind} of round {round} for {to} was never created by {from}")),
        }
    };
    let mut log = Vec::new();
    for (slot, num, echo) in phases(cfg, id) {
        if echo {
            continue;
        }
        let shape = cfg.shape(slot);
        let combo = shape.rounds[&num].combo;
        let comm = shape.comm(num, id);
        let own = |k: u8| -> Result<Option<Val>, String> {
            if combo & k != 0 && !comm.dests.is_empty() {
                Ok(Some(get(slot, num, k, id, BCAST)?))
            } else {
                Ok(None)
            }
        };
        let part = |k: u8, from: u8| -> Result<Option<Val>, String> {
            if combo & k != 0 {
                Ok(Some(get(slot, num, k, from, if k == D { id } else { BCAST })?))
            } else {
                Ok(None)
            }
        };
        let mut recv = BTreeMap::new();
        for from in &comm.expects {
            recv.insert(*from, Rcv { d: part(D, *from)?, e: part(E, *from)?, n: part(N, *from)? });
        }
        let mut arts = BTreeMap::new();
        for to in &comm.dests {
            let art = if combo & D != 0 {
                let v = get(slot, num, D, id, *to)?;
                Some(Art { to: *to, round: num, fresh: v.fresh })
            } else {
                None
            };
            arts.insert(*to, art);
        }
        log.push(RoundRec { slot, num, own_e: own(E)?, own_n: own(N)?, recv, arts, fin_fresh: 0 });
    }
    Ok(RunLog(log))
}

pub fn strip(log: &RunLog) -> RunLog {
    let mut l = log.clone();
    for r in &mut l.0 {
        r.fin_fresh = 0;
    }
    l
}
