//! Exploration of all delivery orders of a closed system of honest nodes.
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

use crate::local::*;
use crate::node::*;
use crate::proto::*;
use crate::report::Ctx;
use crate::sp::*;

/// What an execution did that it should not have done.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Bad {
    Fail,
    Rejected,
    Stall,
    WrongResult,
    NotFinished,
    Errors,
    Missing,
}

pub struct Found {
    pub bad: Bad,
    pub node: u8,
    pub detail: String,
    pub trace: Vec<String>,
}

fn key_of(locs: &[u32], inflight: &[u32]) -> u128 {
    let mut h = MixHash::default();
    for l in locs {
        h.feed(&l.to_be_bytes());
    }
    h.feed(&[0xff]);
    for m in inflight {
        h.feed(&m.to_be_bytes());
    }
    let (a, b) = h.out();
    ((a as u128) << 64) | b as u128
}

fn enabled(sys: &LocalSys, loc: u32, inflight: &[u32]) -> Vec<Ev> {
    let l = &sys.locs[loc as usize];
    let mut v = Vec::new();
    if l.done.is_some() {
        return v;
    }
    if l.cf == Cf::Yes {
        v.push(Ev::Finalize);
    }
    for s in &l.pend {
        v.push(Ev::Cached(*s));
    }
    for m in inflight {
        if sys.msgs[*m as usize].to == l.node {
            v.push(Ev::Deliver(*m));
        }
    }
    v
}

fn check_loc(sys: &LocalSys, loc: u32, out: &mut Vec<Found>) {
    let l = &sys.locs[loc as usize];
    let mut bad = |bad: Bad, detail: String| out.push(Found { bad, node: l.node, detail, trace: sys.trace_of(loc) });
    if let Some(Pre::Error(e)) = &l.last {
        bad(Bad::Rejected, format!("node {} rejected an honest message in {}: {e}", l.node, l.round));
    }
    if l.cf == Cf::Never {
        bad(Bad::Stall, format!("node {} can never finalize {} although everyone is honest", l.node, l.round));
    }
}

fn check_done(sys: &LocalSys, loc: u32, out: &mut Vec<Found>) {
    let l = &sys.locs[loc as usize];
    let Some(rep) = &l.done else { return };
    let mut bad = |bad: Bad, detail: String| out.push(Found { bad, node: l.node, detail, trace: sys.trace_of(loc) });
    match &rep.outcome {
        Out::Result(log) => match expected_log(&sys.cfg, l.node, &sys.made) {
            Ok(want) => {
                if strip(log) != want {
                    bad(Bad::WrongResult, format!("node {} got {:?}, expected {:?}", l.node, strip(log), want));
                }
            }
            Err(e) => bad(Bad::WrongResult, format!("node {} finished, but {e}", l.node)),
        },
        o => bad(Bad::NotFinished, format!("node {} ended with {o:?}", l.node)),
    }
    if !rep.provable.is_empty() || !rep.unprovable.is_empty() {
        bad(Bad::Errors, format!("node {} reports {}", l.node, rep.brief()));
    }
    if !rep.missing.is_empty() {
        bad(Bad::Missing, format!("node {} reports {}", l.node, rep.brief()));
    }
}

pub struct Explored {
    pub states: u64,
    pub transitions: u64,
    pub executed: u64,
    pub complete: bool,
    pub found: Vec<Found>,
    pub finished: u64,
    pub sys: LocalSys,
}

/// All interleavings of deliveries and finalizations at all nodes.
pub fn explore_full(cfg: &Arc<Cfg>, max_states: usize) -> Explored {
    explore(cfg, max_states, None)
}

/// All orders at one node while the others act as soon as they can.
pub fn explore_focus(cfg: &Arc<Cfg>, focus: u8, max_states: usize) -> Explored {
    explore(cfg, max_states, Some(focus))
}

fn explore(cfg: &Arc<Cfg>, max_states: usize, focus: Option<u8>) -> Explored {
    let mut sys = LocalSys::new(cfg);
    let ids: Vec<u8> = cfg.parties().into_iter().collect();
    let mut found = Vec::new();
    let mut locs = Vec::new();
    let mut inflight = Vec::new();
    let mut checked = 0;
    for id in &ids {
        match sys.start(*id) {
            Step::Fail(f) => {
                found.push(Found { bad: Bad::Fail, node: *id, detail: format!("creation of node {id} {f}"), trace: vec![] });
                return Explored { states: 0, transitions: 0, executed: 0, complete: true, found, finished: 0, sys };
            }
            Step::Next(l, sent) => {
                locs.push(l);
                inflight.extend(sent.iter().copied());
            }
        }
    }
    inflight.sort();
    let mut transitions = 0;
    let mut complete = true;
    // With a focus, everything the others can do is done at once.
    let settle = |sys: &mut LocalSys, locs: &mut Vec<u32>, inflight: &mut Vec<u32>, found: &mut Vec<Found>| {
        let Some(f) = focus else { return };
        loop {
            let mut acted = false;
            for k in 0..ids.len() {
                if ids[k] == f {
                    continue;
                }
                while let Some(ev) = enabled(sys, locs[k], inflight).first().copied() {
                    match sys.step(locs[k], ev).0 {
                        Step::Fail(x) => {
                            let mut trace = sys.trace_of(locs[k]);
                            trace.push(sys.ev_label(ev));
                            found.push(Found { bad: Bad::Fail, node: ids[k], detail: format!("node {}: {} {x}", ids[k], sys.ev_label(ev)), trace });
                            return;
                        }
                        Step::Next(l, sent) => {
                            locs[k] = l;
                            if let Ev::Deliver(m) = ev {
                                let p = inflight.iter().position(|x| *x == m).unwrap();
                                inflight.remove(p);
                            }
                            inflight.extend(sent.iter().copied());
                            inflight.sort();
                            acted = true;
                        }
                    }
                }
            }
            if !acted {
                break;
            }
        }
    };
    settle(&mut sys, &mut locs, &mut inflight, &mut found);
    let mut seen: HashMap<u128, u32> = HashMap::new();
    let mut states = vec![(locs.clone(), inflight.clone())];
    seen.insert(key_of(&locs, &inflight), 0);
    let mut next = 0;
    let mut finished = 0;
    let mut reported: BTreeMap<Bad, u32> = BTreeMap::new();
    while next < states.len() {
        let (locs, inflight) = std::mem::take(&mut states[next]);
        next += 1;
        let mut any = false;
        for k in 0..ids.len() {
            for ev in enabled(&sys, locs[k], &inflight) {
                any = true;
                transitions += 1;
                match sys.step(locs[k], ev).0 {
                    Step::Fail(f) => {
                        if *reported.entry(Bad::Fail).and_modify(|x| *x += 1).or_insert(1) <= 3 {
                            let mut trace = sys.trace_of(locs[k]);
                            trace.push(format!("node {}: {}", ids[k], sys.ev_label(ev)));
                            found.push(Found { bad: Bad::Fail, node: ids[k], detail: format!("node {}: {} {f}", ids[k], sys.ev_label(ev)), trace });
                        }
                    }
                    Step::Next(l, sent) => {
                        let mut locs2 = locs.clone();
                        let mut inflight2 = inflight.clone();
                        locs2[k] = l;
                        if let Ev::Deliver(m) = ev {
                            let p = inflight2.iter().position(|x| *x == m).unwrap();
                            inflight2.remove(p);
                        }
                        inflight2.extend(sent.iter().copied());
                        inflight2.sort();
                        settle(&mut sys, &mut locs2, &mut inflight2, &mut found);
                        let key = key_of(&locs2, &inflight2);
                        let n = states.len() as u32;
                        if *seen.entry(key).or_insert(n) == n {
                            states.push((locs2, inflight2));
                        }
                    }
                }
            }
        }
        if !any {
            if locs.iter().all(|l| sys.locs[*l as usize].done.is_some()) {
                finished += 1;
            } else if reported.insert(Bad::NotFinished, 1).is_none() && reported.is_empty() | !reported.contains_key(&Bad::Fail) {
                for (k, l) in locs.iter().enumerate() {
                    if sys.locs[*l as usize].done.is_none() {
                        let mut trace = sys.trace_of(*l);
                        for o in &locs {
                            if o != l {
                                trace.extend(sys.trace_of(*o));
                            }
                        }
                        found.push(Found {
                            bad: Bad::Stall,
                            node: ids[k],
                            detail: format!(
                                "no message is left, but node {} still waits in {} ({:?})",
                                ids[k], sys.locs[*l as usize].round, sys.locs[*l as usize].cf
                            ),
                            trace,
                        });
                        break;
                    }
                }
            }
        }
        if states.len() > max_states {
            complete = false;
            break;
        }
        while checked < sys.locs.len() {
            check_loc(&sys, checked as u32, &mut found);
            checked += 1;
        }
        if found.len() > 20 {
            break;
        }
    }
    for l in 0..sys.locs.len() {
        check_done(&sys, l as u32, &mut found);
        if found.len() > 40 {
            break;
        }
    }
    Explored { states: states.len() as u64, transitions, executed: sys.executed, complete, found, finished, sys }
}

fn key_kind(b: Bad) -> &'static str {
    match b {
        Bad::Fail => "a call of an honest node failed",
        Bad::Rejected => "an honest message was rejected",
        Bad::Stall => "an honest node is stuck",
        Bad::WrongResult => "a result differs from the expected one",
        Bad::NotFinished => "a node did not finish with a result",
        Bad::Errors => "an honest party was reported",
        Bad::Missing => "messages were reported as missing",
    }
}

pub enum Job {
    Full(Arc<Cfg>, usize),
    Focus(Arc<Cfg>, u8, usize),
}

/// Runs the jobs and reports what is `relevant`.
pub fn run_jobs(ctx: &Ctx, jobs: &[Job], relevant: impl Fn(Bad) -> bool + Sync) {
    ctx.par(jobs, |job| {
        let (cfg, mode) = match job {
            Job::Full(c, _) => (c, "all nodes".to_string()),
            Job::Focus(c, f, _) => (c, format!("orders at node {f}")),
        };
        if !ctx.wants(&cfg.name) {
            return;
        }
        let r = match job {
            Job::Full(c, m) => explore_full(c, *m),
            Job::Focus(c, f, m) => explore_focus(c, *f, *m),
        };
        ctx.add(r.states, r.transitions, r.executed);
        ctx.count("local_states", r.sys.locs.len() as u64);
        ctx.count("messages", r.sys.msgs.len() as u64);
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!(
                "{} ({mode}): {} states, {} transitions, {} executed, {} locals, complete {}, found {}",
                cfg.name, r.states, r.transitions, r.executed, r.sys.locs.len(), r.complete, r.found.len()
            );
        }
        ctx.sample(serde_json::json!({
            "configuration": cfg.name, "mode": mode, "states": r.states, "transitions": r.transitions,
            "local_states": r.sys.locs.len(), "final_states": r.finished, "messages": r.sys.msgs.len(),
        }));
        if !r.complete {
            ctx.incomplete(format!("{} ({mode})", cfg.name));
        }
        for f in r.found {
            if relevant(f.bad) {
                let mut trace = vec![format!("configuration: {} ({mode})", cfg.name)];
                trace.extend(f.trace);
                ctx.violation(format!("{}: {}", key_kind(f.bad), cfg.name), f.detail, trace);
            }
        }
    });
}
