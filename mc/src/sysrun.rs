//! The runners of whole systems, with all their random choices and schedules enumerated.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Mutex};

use manul::dev::run_sync;
use manul::session::{LocalError, WireFormat};
use tokio::mc::{Chooser, Kind, Outcome};

use crate::asyn::{advance, norm, setup, trace_text, Dfs, Norm, Shared};
use crate::dispatch;
use crate::local::*;
use crate::node::*;
use crate::proto::*;
use crate::report::{watch, Ctx};
use crate::sp::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Runner {
    Sync,
    Async,
    /// Asynchronous with offloading.
    Par,
}

pub struct SysJob {
    pub cfg: Arc<Cfg>,
    pub runner: Runner,
    /// How many choices other than the default one are made in an execution.
    pub bound: usize,
    pub max_runs: u64,
    /// The order in which the entry points are given.
    pub reversed: bool,
}

/// A report without random contents.
/// and without the number of the part of a chain.
fn norm_sys(rep: &Rep) -> Norm {
    let mut rep = rep.clone();
    if let Out::Result(log) = &mut rep.outcome {
        for r in &mut log.0 {
            r.slot = 0;
            for v in [&mut r.own_e, &mut r.own_n].into_iter().flatten() {
                v.slot = 0;
            }
            for v in r.recv.values_mut().flat_map(|x| [&mut x.d, &mut x.e, &mut x.n]).flatten() {
                v.fresh = 0;
                v.slot = 0;
            }
        }
    }
    let mut n = norm(&rep, false);
    for v in n.provable.values_mut() {
        v.2 = 0;
    }
    n
}

/// What a system can end with if its sessions are driven by hand.
struct Joint {
    ends: BTreeSet<BTreeMap<u8, Norm>>,
    /// Some node can wait for ever.
    waits: bool,
    states: u64,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum At {
    Active(u32),
    Over(usize),
}

/// All orders of delivery; nodes act as soon as they can. `late`: a node that cannot go on may take more messages
/// before it stops.
fn joint(cfg: &Arc<Cfg>, late: bool) -> Result<Joint, String> {
    let mut sys = LocalSys::new(cfg);
    let ids: Vec<u8> = cfg.parties().into_iter().collect();
    let mut norms: Vec<Norm> = Vec::new();
    let mut over = |n: Norm| -> usize {
        match norms.iter().position(|x| *x == n) {
            Some(i) => i,
            None => {
                norms.push(n);
                norms.len() - 1
            }
        }
    };
    /// Everything that follows without further messages.
    fn settle(sys: &mut LocalSys, mut loc: u32, inflight: &mut Vec<u32>, over: &mut impl FnMut(Norm) -> usize, late: bool) -> Result<(At, Option<At>), String> {
        loop {
            let l = &sys.locs[loc as usize];
            if let Some(rep) = &l.done {
                return Ok((At::Over(over(norm_sys(rep))), None));
            }
            let ev = match l.pend.iter().next() {
                Some(p) => Ev::Cached(*p),
                None if l.cf == Cf::Yes => Ev::Finalize,
                None if l.cf == Cf::Never => {
                    let rep = sys.report_now(loc, true).map_err(|f| f.to_string())?;
                    let end = At::Over(over(norm_sys(&rep)));
                    return Ok((end, late.then_some(At::Active(loc))));
                }
                None => return Ok((At::Active(loc), None)),
            };
            match sys.step(loc, ev).0 {
                Step::Fail(f) => return Err(format!("{} {f}", sys.ev_label(ev))),
                Step::Next(l, sent) => {
                    loc = l;
                    inflight.extend(sent.iter().copied());
                    inflight.sort();
                }
            }
        }
    }
    let mut todo: Vec<(Vec<At>, Vec<u32>)> = vec![(vec![], vec![])];
    let mut seen = HashSet::new();
    let mut ready = Vec::new();
    // Creation, node by node.
    while let Some((at, inflight)) = todo.pop() {
        if at.len() == ids.len() {
            if seen.insert((at.clone(), inflight.clone())) {
                ready.push((at, inflight));
            }
            continue;
        }
        let Step::Next(loc, sent) = sys.start(ids[at.len()]) else { return Err("creation failed".into()) };
        let mut inflight = inflight.clone();
        inflight.extend(sent.iter().copied());
        let (a, b) = settle(&mut sys, loc, &mut inflight, &mut over, late)?;
        for x in [Some(a), b].into_iter().flatten() {
            let mut at = at.clone();
            at.push(x);
            todo.push((at, inflight.clone()));
        }
    }
    let mut ends = BTreeSet::new();
    let mut waits = false;
    let mut states = 0;
    while let Some((at, inflight)) = ready.pop() {
        states += 1;
        if states > 200_000 {
            return Err("too many states by hand".into());
        }
        if inflight.is_empty() {
            let mut end = BTreeMap::new();
            for (k, a) in at.iter().enumerate() {
                let n = match a {
                    At::Over(n) => *n,
                    At::Active(l) => {
                        let never = sys.locs[*l as usize].cf == Cf::Never;
                        waits |= !never;
                        over(norm_sys(&*sys.report_now(*l, never).map_err(|f| f.to_string())?))
                    }
                };
                end.insert(ids[k], n);
            }
            ends.insert(end);
            continue;
        }
        for (i, m) in inflight.iter().enumerate() {
            if i > 0 && inflight[i - 1] == *m {
                continue;
            }
            let mut rest = inflight.clone();
            rest.remove(i);
            let k = ids.iter().position(|x| *x == sys.msgs[*m as usize].to).ok_or("message to nobody")?;
            let mut nexts = vec![];
            match at[k] {
                At::Over(_) => nexts.push((at[k].clone(), rest)),
                At::Active(loc) => match sys.step(loc, Ev::Deliver(*m)).0 {
                    Step::Fail(f) => return Err(format!("{} {f}", sys.msg_label(*m))),
                    Step::Next(l, _) => {
                        let (a, b) = settle(&mut sys, l, &mut rest, &mut over, late)?;
                        nexts.push((a, rest.clone()));
                        if let Some(b) = b {
                            nexts.push((b, rest));
                        }
                    }
                },
            }
            for (a, rest) in nexts {
                let mut at = at.clone();
                at[k] = a;
                if seen.insert((at.clone(), rest.clone())) {
                    ready.push((at, rest));
                }
            }
        }
    }
    let ends = ends.into_iter().map(|e| e.into_iter().map(|(k, n)| (k, norms[n].clone())).collect()).collect();
    Ok(Joint { ends, waits, states })
}

struct Observed {
    result: Result<BTreeMap<u8, Rep>, Fail>,
    made: Vec<Val>,
    calls: BTreeMap<u8, Vec<(u8, u8, u8, Rcv)>>,
    outcome: Outcome,
}

fn execute(job: &SysJob, chooser: Arc<Mutex<Dfs>>) -> Observed {
    dispatch!(job.cfg.topo, job.cfg.fmt, execute_typed(job, chooser))
}

fn execute_typed<T: Topology, F: WireFormat>(job: &SysJob, dfs: Arc<Mutex<Dfs>>) -> Observed {
    set_shapes(&job.cfg.shapes);
    let cfg = &job.cfg;
    let mut eps = Vec::new();
    let mut obs = BTreeMap::new();
    for id in cfg.parties() {
        let start = start_of(cfg);
        obs.insert(id, start.obs.clone());
        eps.push((Signer(id), T::ep(start)));
    }
    if job.reversed {
        eps.reverse();
    }
    let mut rng = DetRng::new(&[cfg.session as u64, 77]);
    let (result, outcome) = match job.runner {
        Runner::Sync => {
            let most = 20_000.max(1_000 * cfg.parties().len().pow(2));
            let (mut chooser, mut n_choices) = (Shared(dfs), 0);
            rand::hook::set(Some(Box::new(move |n| {
                n_choices += 1;
                assert!(n_choices < most, "the runner does not end");
                if n <= 1 {
                    0
                } else {
                    chooser.choose(Kind::Env, n as usize) as u64
                }
            })));
            let r = guard(|| run_sync::<T::EP, Sp<F>>(&mut rng, eps));
            rand::hook::set(None);
            (r, Outcome::Done)
        }
        r => {
            rand::hook::set(Some(Box::new(|n| if n <= 1 { 0 } else { tokio::mc::choose(n as usize) as u64 })));
            let root = async move {
                let r: Result<_, LocalError> = manul::dev::tokio::run_async::<T::EP, Sp<F>>(&mut rng, eps, r == Runner::Par).await;
                r
            };
            let (outcome, r, panics) = {
                let _call = watch::call();
                tokio::mc::run(Box::new(Shared(dfs)), setup(cfg, None), 50_000.max(2_000 * cfg.parties().len().pow(2)), root)
            };
            rand::hook::set(None);
            let r = match r {
                _ if !panics.is_empty() => Err(Fail::Panic(panics.join("; "))),
                Some(Ok(r)) => Ok(r),
                Some(Err(e)) => Err(Fail::Local(e.to_string())),
                None => Err(Fail::Local(format!("{outcome:?}"))),
            };
            (r, outcome)
        }
    };
    let result = result.map(|r| r.reports.into_iter().map(|(id, rep)| (id.0, rep_of::<T, F>(cfg, rep))).collect());
    Observed {
        result,
        outcome,
        made: obs.values().flat_map(|o| o.made.lock().unwrap().clone()).collect(),
        calls: obs.iter().map(|(k, o)| (*k, o.calls.lock().unwrap().clone())).collect(),
    }
}

fn check(job: &SysJob, by_hand: Option<&Joint>, obs: &Observed) -> Result<(), (String, String)> {
    let bad = |key: &str, detail: String| Err((key.to_string(), detail));
    let cfg = &job.cfg;
    let honest = by_hand.is_none();
    match (&obs.outcome, &obs.result) {
        (Outcome::Deadlock(_), _) if by_hand.is_some_and(|j| j.waits) => return Ok(()),
        (Outcome::Deadlock(who), _) => return bad("deadlock", format!("waiting: {who}")),
        (Outcome::Livelock, _) => return bad("endless execution", String::new()),
        (Outcome::Done, Err(f)) => return bad("the runner failed", format!("it {f}")),
        _ => {}
    }
    let Ok(reports) = &obs.result else { unreachable!() };
    if reports.keys().copied().collect::<BTreeSet<_>>() != cfg.parties() {
        return bad("reports of other parties", format!("{:?}", reports.keys()));
    }
    // Deliveries.
    let made: HashSet<&Val> = obs.made.iter().collect();
    for (id, calls) in &obs.calls {
        let mut once = BTreeSet::new();
        for (slot, round, from, rcv) in calls {
            if !once.insert((*slot, *round, *from)) {
                return bad("a message is processed twice", format!("by {id}, from {from}, round {round}"));
            }
            for v in [&rcv.d, &rcv.e, &rcv.n].into_iter().flatten() {
                if !made.contains(v) || v.from != *from || v.round != *round || (v.to != *id && v.to != BCAST) {
                    return bad("a delivered message was not created", format!("at {id} from {from}: {v:?}"));
                }
            }
        }
    }
    if honest {
        let mut by: HashMap<(u8, u8, u8, u8, u8), BTreeSet<Val>> = HashMap::new();
        for v in &obs.made {
            by.entry((v.slot, v.round, v.kind, v.from, v.to)).or_default().insert(v.clone());
        }
        for (id, rep) in reports {
            let want = match expected_log(cfg, *id, &by) {
                Ok(w) => w,
                Err(e) => return bad("messages", e),
            };
            let ok = matches!(&rep.outcome, Out::Result(log) if strip(log) == want);
            if !ok || !rep.provable.is_empty() || !rep.unprovable.is_empty() || !rep.missing.is_empty() {
                return bad("report", format!("of {id}: {}\n  {:?}, expected {want:?}", rep.brief(), rep.outcome));
            }
        }
        return Ok(());
    }
    let got: BTreeMap<u8, Norm> = reports.iter().map(|(k, r)| (*k, norm_sys(r))).collect();
    let hand = by_hand.unwrap();
    if !hand.ends.contains(&got) {
        return bad("reports", format!("{got:?}\n  by hand one of {:?}", hand.ends.iter().take(3).collect::<Vec<_>>()));
    }
    for (id, rep) in reports {
        if let Some((g, e)) = rep.provable.iter().find(|(_, e)| e.verify != EvRes::Ok) {
            return bad("evidence does not verify", format!("of {id} against {g}: {:?}", e.verify));
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx, jobs: &[SysJob]) {
    let wanted: Vec<&SysJob> = jobs.iter().filter(|j| ctx.wants(&j.cfg.name)).collect();
    ctx.par(&wanted, |job| {
        let t = std::time::Instant::now();
        let name = format!("{:?} {}{}", job.runner, job.cfg.name, if job.reversed { ", reversed" } else { "" });
        let honest = job.cfg.slots().iter().all(|s| job.cfg.shape(*s).mis.is_empty());
        let hand = match honest {
            true => None,
            false => match joint(&job.cfg, job.runner == Runner::Par) {
                Ok(j) => Some(j),
                Err(e) => {
                    ctx.violation(format!("{name}: by hand"), e, vec![]);
                    return;
                }
            },
        };
        let dfs: Arc<Mutex<Dfs>> = Arc::new(Mutex::new(Dfs::default()));
        let (mut runs, mut points, mut ends) = (0u64, 0u64, HashSet::new());
        loop {
            dfs.lock().unwrap().trace.clear();
            let obs = execute(job, dfs.clone());
            runs += 1;
            let mut d = dfs.lock().unwrap();
            points += d.trace.len() as u64;
            if d.diverged {
                ctx.incomplete(format!("{name}: the execution is not determined by the choices"));
                break;
            }
            if let (Ok(r), false) = (&obs.result, honest) {
                ends.insert(r.iter().map(|(k, r)| (*k, norm_sys(r))).collect::<BTreeMap<_, _>>());
            }
            if let Err((k, detail)) = check(job, hand.as_ref(), &obs) {
                ctx.violation(format!("{name}: {k}"), detail, vec![format!("choices: {}", trace_text(&d.trace))]);
                break;
            }
            match advance(&d.trace, job.bound) {
                None => break,
                Some(p) => d.prefix = p,
            }
            if runs >= job.max_runs {
                ctx.incomplete(format!("{name}: {runs} executions"));
                break;
            }
            if std::time::Instant::now() > ctx.deadline() {
                ctx.incomplete(format!("{name}: out of time after {runs} executions"));
                break;
            }
        }
        ctx.add(hand.as_ref().map_or(0, |h| h.states), points, runs);
        ctx.count("executions", runs);
        ctx.count("different_ends", ends.len() as u64);
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{name}: {runs} runs, {points} points, {} ends of {:?} {:.1?}", ends.len(), hand.as_ref().map(|h| (h.ends.len(), h.waits, h.states)), t.elapsed());
        }
        ctx.sample(serde_json::json!({ "configuration": name, "executions": runs, "choices": points, "bound": job.bound, "different_ends": ends.len() }));
    });
}

/// The end of the parts of a chain executed one after another, as the chain is expected to end.
fn parts_end(cfg: &Arc<Cfg>, order: u8) -> Result<BTreeMap<u8, Norm>, String> {
    let mut active: BTreeMap<u8, RunLog> = cfg.parties().into_iter().map(|p| (p, RunLog::default())).collect();
    let mut ends = BTreeMap::new();
    let last = *cfg.slots().last().unwrap();
    for slot in cfg.slots() {
        let mut shape = (**cfg.shape(slot)).clone();
        shape.slot = 0;
        let part = Arc::new(Cfg { fmt: cfg.fmt, ..Cfg::grid(shape) });
        let reports = run_part(&part, &active, order).map_err(|e| format!("part {slot}: {e}"))?;
        for (id, mut rep) in reports {
            match (&rep.outcome, slot == last) {
                (Out::Result(log), false) if rep.provable.is_empty() && rep.unprovable.is_empty() => {
                    active.insert(id, log.clone());
                    continue;
                }
                (Out::Result(_), false) => return Err("a part of the menu has a result in spite of errors".into()),
                _ => {}
            }
            active.remove(&id);
            rep.missing = rep
                .missing
                .into_iter()
                .map(|(k, v)| {
                    let num = k.trim_start_matches("Round ").split(' ').next().unwrap().parse().expect("round number");
                    (cfg.round_name(slot, num, k.contains("echo")), v)
                })
                .collect();
            ends.insert(id, norm_sys(&rep));
        }
    }
    Ok(ends)
}

fn run_part(cfg: &Arc<Cfg>, active: &BTreeMap<u8, RunLog>, order: u8) -> Result<BTreeMap<u8, Rep>, String> {
    let mut nodes: BTreeMap<u8, Option<Box<dyn NodeDyn>>> = BTreeMap::new();
    let mut reports = BTreeMap::new();
    let mut queue: Vec<(u8, u8, Msg)> = Vec::new();
    fn advance(id: u8, mut node: Box<dyn NodeDyn>, queue: &mut Vec<(u8, u8, Msg)>) -> Res<Result<Box<dyn NodeDyn>, Rep>> {
        loop {
            match node.can_finalize()? {
                Cf::NotYet => return Ok(Ok(node)),
                Cf::Never => return Ok(Err(node.terminate(true)?)),
                Cf::Yes => match node.finalize()? {
                    Fin::Done(rep) => return Ok(Err(rep)),
                    Fin::Next { node: n, cached } => {
                        node = n;
                        queue.extend(node.make_all()?.into_iter().map(|(to, m)| (id, to, m)));
                        for (_, i) in cached {
                            node.process_add(i)?;
                        }
                    }
                },
            }
        }
    }
    let err = |f: Fail| f.to_string();
    for (id, prior) in active {
        let mut node = make_node_after(cfg, *id, prior.clone()).map_err(err)?;
        queue.extend(node.make_all().map_err(err)?.into_iter().map(|(to, m)| (*id, to, m)));
        match advance(*id, node, &mut queue).map_err(err)? {
            Ok(n) => nodes.insert(*id, Some(n)),
            Err(rep) => {
                reports.insert(*id, rep);
                nodes.insert(*id, None)
            }
        };
    }
    while !queue.is_empty() {
        let i = match order {
            0 => 0,
            1 => queue.len() - 1,
            _ => queue.len() / 2,
        };
        let (from, to, msg) = queue.remove(i);
        let Some(slot) = nodes.get_mut(&to) else { continue };
        let Some(mut node) = slot.take() else { continue };
        if let Pre::ToProcess(i) = node.pre(from, msg).map_err(err)? {
            node.process_add(i).map_err(err)?;
        }
        match advance(to, node, &mut queue).map_err(err)? {
            Ok(n) => *slot = Some(n),
            Err(rep) => {
                reports.insert(to, rep);
            }
        }
    }
    for (id, n) in nodes {
        if let Some(n) = n {
            reports.insert(id, n.terminate(false).map_err(err)?);
        }
    }
    Ok(reports)
}

/// Compares the ends of chains, in all orders of delivery, with those of their parts.
pub fn run_chains(ctx: &Ctx, cfgs: &[Arc<Cfg>]) {
    let wanted: Vec<&Arc<Cfg>> = cfgs.iter().filter(|c| ctx.wants(&c.name)).collect();
    ctx.par(&wanted, |cfg| {
        let mut ends = BTreeSet::new();
        for order in 0..3 {
            match parts_end(cfg, order) {
                Ok(e) => {
                    ends.insert(e);
                }
                Err(e) => {
                    ctx.incomplete(format!("{}: the parts: {e}", cfg.name));
                    return;
                }
            }
        }
        match joint(cfg, false) {
            Err(e) => ctx.violation(format!("{}: the chain", cfg.name), e, vec![]),
            Ok(j) => {
                ctx.add(j.states, 0, j.ends.len() as u64);
                ctx.count("chains_compared_with_their_parts", 1);
                if std::env::var("MC_VERBOSE").is_ok() {
                    eprintln!("{}: {} states, {} ends, of parts {}", cfg.name, j.states, j.ends.len(), ends.len());
                }
                if let Some(bad) = j.ends.difference(&ends).next() {
                    for (id, n) in bad {
                        if !ends.iter().any(|e| e.get(id) == Some(n)) {
                            let want: Vec<_> = ends.iter().map(|e| format!("{:?}", e.get(id))).collect();
                            ctx.violation(
                                format!("{}: a chain ends in another way than its parts", cfg.name),
                                format!("node {id}: {n:?}\n  the parts: {}", want.join(" or ")),
                                vec![],
                            );
                        }
                    }
                }
            }
        }
    });
}
