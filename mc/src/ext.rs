//! Sessions of wrapped entry points next to sessions of the plain protocol with the same deviations built in.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;

use crate::local::*;
use crate::node::*;
use crate::proto::*;
use crate::report::Ctx;

pub struct ExtJob {
    /// The deviations are in `mis` of the shapes.
    pub plain: Arc<Cfg>,
    /// The deviations are in the extensions.
    pub wrapped: Arc<Cfg>,
    pub name: String,
    /// Other nodes than this one act as soon as they can.
    pub focus: Option<u8>,
    pub max_states: usize,
}

struct Pair {
    p: LocalSys,
    w: LocalSys,
    map: HashMap<u32, u32>,
}

type At = (u32, u32);

fn rep_text(r: &Rep) -> String {
    let prov: Vec<_> = r.provable.iter().map(|(k, v)| (k, &v.desc, &v.json_text, &v.bin, &v.verify)).collect();
    format!("{:?}, provable {prov:?}, unprovable {:?}, missing {:?}", r.outcome, r.unprovable, r.missing)
}

impl Pair {
    /// Compares what a step led to in both systems. `None`: both failed in the same way.
    fn same(&mut self, a: Step, b: Step) -> Result<Option<(At, Vec<u32>)>, String> {
        let (a, b) = match (a, b) {
            (Step::Next(a, x), Step::Next(b, y)) => ((a, x), (b, y)),
            (Step::Fail(a), Step::Fail(b)) if a == b => return Ok(None),
            (Step::Fail(a), Step::Fail(b)) => return Err(format!("plain: {a}; wrapped: {b}")),
            (Step::Fail(a), _) => return Err(format!("the plain node {a}, the wrapped one goes on")),
            (_, Step::Fail(b)) => return Err(format!("the wrapped node {b}, the plain one goes on")),
        };
        if a.1.len() != b.1.len() {
            return Err(format!("{} messages instead of {} are sent", b.1.len(), a.1.len()));
        }
        for (m, n) in a.1.iter().zip(b.1.iter()) {
            if self.map.get(m) == Some(n) {
                continue;
            }
            let (x, y) = (&self.p.msgs[*m as usize], &self.w.msgs[*n as usize]);
            let text = |i: &MsgInfo| format!("to {}: {}", i.to, serde_json::to_string(&i.msg).unwrap());
            if text(x) != text(y) {
                return Err(format!("sent by the plain node {}\n  by the wrapped one {}", text(x), text(y)));
            }
            self.map.insert(*m, *n);
        }
        let (x, y) = (&self.p.locs[a.0 as usize], &self.w.locs[b.0 as usize]);
        let brief = |l: &Loc| format!("{} {:?} {:?} {:?}", l.round, l.cf, l.pend, l.last);
        if brief(x) != brief(y) {
            return Err(format!("plain: {}; wrapped: {}", brief(x), brief(y)));
        }
        if x.calls != y.calls {
            return Err("the rounds see different messages".into());
        }
        match (&x.done, &y.done) {
            (None, None) => {}
            (Some(x), Some(y)) if rep_text(x) == rep_text(y) => {}
            (Some(x), Some(y)) => return Err(format!("report of the plain node {}\n  of the wrapped one {}", rep_text(x), rep_text(y))),
            _ => return Err("only one of the sessions ends".into()),
        }
        Ok(Some(((a.0, b.0), a.1.to_vec())))
    }

    fn step(&mut self, at: At, ev: Ev) -> Result<Option<(At, Vec<u32>)>, String> {
        let ev_w = match ev {
            Ev::Deliver(m) => Ev::Deliver(self.map[&m]),
            e => e,
        };
        let a = self.p.step(at.0, ev).0;
        let b = self.w.step(at.1, ev_w).0;
        self.same(a, b).map_err(|e| format!("node {}: {}: {e}", self.p.locs[at.0 as usize].node, self.p.ev_label(ev)))
    }

    /// Compares the reports if the sessions were ended here.
    fn reports(&mut self, at: At) -> Result<(), String> {
        for due in [false, true] {
            let (x, y) = (self.p.report_now(at.0, due), self.w.report_now(at.1, due));
            let text = |r: &Res<std::rc::Rc<Rep>>| match r {
                Ok(r) => rep_text(r),
                Err(f) => f.to_string(),
            };
            if text(&x) != text(&y) {
                return Err(format!("terminated: plain {}\n  wrapped {}", text(&x), text(&y)));
            }
            if let Some((g, e)) = y.iter().flat_map(|r| r.provable.iter()).find(|(_, e)| e.verify != EvRes::Ok) {
                return Err(format!("evidence against {g} does not verify: {:?}", e.verify));
            }
        }
        Ok(())
    }
}

fn explore(job: &ExtJob) -> (u64, u64, u64, bool, Option<(String, Vec<String>)>) {
    let mut pair = Pair { p: LocalSys::new(&job.plain), w: LocalSys::new(&job.wrapped), map: HashMap::new() };
    let ids: Vec<u8> = job.plain.parties().into_iter().collect();
    let mut at: Vec<Option<At>> = Vec::new();
    let mut inflight: Vec<u32> = Vec::new();
    let (mut states, mut transitions) = (0, 0);
    let mut checked: HashSet<At> = HashSet::new();
    macro_rules! fail {
        ($e:expr, $at:expr) => {{
            let at: Option<At> = $at;
            let trace = at.map(|a| pair.p.trace_of(a.0)).unwrap_or_default();
            return (states, transitions, pair.p.executed + pair.w.executed, true, Some(($e, trace)));
        }};
    }
    for id in &ids {
        let (a, b) = (pair.p.start(*id), pair.w.start(*id));
        match pair.same(a, b) {
            Err(e) => fail!(format!("creation of node {id}: {e}"), None),
            Ok(None) => at.push(None),
            Ok(Some((a, sent))) => {
                at.push(Some(a));
                inflight.extend(sent);
            }
        }
    }
    inflight.sort();
    let mut todo = vec![(at, inflight)];
    let mut seen = HashSet::new();
    while let Some((at, inflight)) = todo.pop() {
        if !seen.insert((at.clone(), inflight.clone())) {
            continue;
        }
        states += 1;
        if states as usize > job.max_states {
            return (states, transitions, pair.p.executed + pair.w.executed, false, None);
        }
        let mut evs: Vec<(usize, Ev)> = Vec::new();
        for (k, a) in at.iter().enumerate() {
            let Some(a) = a else { continue };
            let l = &pair.p.locs[a.0 as usize];
            if l.done.is_some() {
                continue;
            }
            if checked.insert(*a) {
                if let Err(e) = pair.reports(*a) {
                    fail!(format!("node {}: {e}", ids[k]), Some(*a));
                }
            }
            let l = &pair.p.locs[a.0 as usize];
            let mut mine: Vec<(usize, Ev)> = Vec::new();
            if l.cf == Cf::Yes {
                mine.push((k, Ev::Finalize));
            }
            mine.extend(l.pend.iter().map(|s| (k, Ev::Cached(*s))));
            mine.extend(inflight.iter().filter(|m| pair.p.msgs[**m as usize].to == ids[k]).map(|m| (k, Ev::Deliver(*m))));
            if job.focus.is_some_and(|f| f != ids[k]) && !mine.is_empty() {
                evs = vec![mine[0]];
                break;
            }
            evs.extend(mine);
        }
        for (k, ev) in evs {
            transitions += 1;
            let a = at[k].unwrap();
            match pair.step(a, ev) {
                Err(e) => fail!(e, Some(a)),
                Ok(next) => {
                    let (mut at2, mut inflight2) = (at.clone(), inflight.clone());
                    at2[k] = next.as_ref().map(|n| n.0);
                    if let Ev::Deliver(m) = ev {
                        let p = inflight2.iter().position(|x| *x == m).unwrap();
                        inflight2.remove(p);
                    }
                    inflight2.extend(next.map(|n| n.1).unwrap_or_default());
                    inflight2.sort();
                    todo.push((at2, inflight2));
                }
            }
        }
    }
    (states, transitions, pair.p.executed + pair.w.executed, true, None)
}

pub fn run(ctx: &Ctx, jobs: &[ExtJob]) {
    let wanted: Vec<&ExtJob> = jobs.iter().filter(|j| ctx.wants(&j.name)).collect();
    ctx.par(&wanted, |job| {
        let (states, transitions, executed, complete, bad) = explore(job);
        ctx.add(states, transitions, executed);
        ctx.count("pairs_of_systems", 1);
        if !complete {
            ctx.incomplete(job.name.clone());
        }
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{}: {states} states, {transitions} points", job.name);
        }
        if let Some((e, trace)) = bad {
            ctx.violation(format!("{}: the wrapped protocol differs", job.name), e, trace);
        }
        ctx.sample(serde_json::json!({ "configuration": job.name, "states": states, "transitions": transitions }));
    });
}

/// Both versions of a configuration in which a party deviates by means of extensions.
pub fn versions(cfg: &Cfg, ext: &BTreeMap<u8, BTreeMap<u8, ExtKind>>, mis: &[(u8, (u8, u8, u8), u8)]) -> (Arc<Cfg>, Arc<Cfg>) {
    let (mut plain, mut wrapped) = (cfg.clone(), cfg.clone());
    for slot in cfg.slots() {
        let s = slot as usize;
        let mut a = (*cfg.shapes[s].clone().unwrap()).clone();
        let mut b = a.clone();
        b.ext = ext.clone();
        for (_, k, tag) in mis.iter().filter(|m| m.0 == slot) {
            a.mis.insert(*k, *tag);
            b.ext_mis.insert(*k, *tag);
        }
        plain.shapes[s] = Some(Arc::new(a));
        wrapped.shapes[s] = Some(Arc::new(b));
    }
    (Arc::new(plain), Arc::new(wrapped))
}
