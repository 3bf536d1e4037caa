//! The asynchronous session runners under a controlled scheduler.
//!
//! One node executes the runner; an environment task feeds it a given sequence of messages and drains what it sends.
//! All choices of the scheduler within a bound on the number of deviations from the default one are enumerated, and in
//! addition a cancellation at every scheduling point. What is observed is compared with the reports which the same
//! sequence of messages leads to if the session is driven by hand.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Mutex};

use manul::session::tokio::{par_run_session, run_session, MessageIn, MessageOut};
use manul::session::{LocalError, Session, SessionReport, WireFormat};
use serde_json::Value;
use tokio::mc::{Chooser, Kind, Outcome, Setup};
use tokio::sync::mpsc;
use tokio_util::sync::CancellationToken;

use crate::adv::*;
use crate::dispatch;
use crate::node::*;
use crate::proto::*;
use crate::report::Ctx;
use crate::sp::*;

pub struct AsynJob {
    pub cfg: Arc<Cfg>,
    pub me: u8,
    /// What arrives, in this order: sender, message, label.
    pub arriving: Vec<(u8, Msg, String)>,
    pub par: bool,
    /// Capacity of the channel the node sends into.
    pub out_cap: usize,
    /// Capacity to give to the internal channels of the runner.
    pub inner_cap: Option<usize>,
    /// How many choices other than the default one are made in an execution.
    pub bound: usize,
    pub cancel: bool,
    pub max_runs: u64,
    pub name: String,
}

/// A report without what depends on the node's private randomness, and what was sent.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Norm {
    pub outcome: String,
    pub provable: BTreeMap<u8, (String, bool, u128)>,
    pub unprovable: BTreeMap<u8, String>,
    pub missing: BTreeMap<String, BTreeSet<u8>>,
}

pub fn norm(rep: &Rep, flat: bool) -> Norm {
    let outcome = match &rep.outcome {
        Out::Result(log) => {
            let mut log = log.clone();
            for r in &mut log.0 {
                r.fin_fresh = 0;
                if !flat {
                    for v in [&mut r.own_e, &mut r.own_n].into_iter().flatten() {
                        v.fresh = 0;
                    }
                }
                for a in r.arts.values_mut().flatten() {
                    a.fresh = 0;
                }
            }
            format!("{log:?}")
        }
        o => format!("{o:?}"),
    };
    Norm {
        outcome,
        provable: rep
            .provable
            .iter()
            .map(|(k, v)| (*k, (v.desc.clone(), v.verify == EvRes::Ok, hash128(v.json_text.as_bytes()))))
            .collect(),
        unprovable: rep.unprovable.clone(),
        missing: rep.missing.clone(),
    }
}

impl Norm {
    fn brief(&self) -> String {
        let out: String = self.outcome.chars().take(2000).collect();
        format!("{out}, provable {:?}, unprovable {:?}, missing {:?}", self.provable, self.unprovable, self.missing)
    }
}

/// The content of a part of a message of the harness protocol.
pub fn val_of(msg: &Msg, kind: u8, fmt: Fmt) -> Option<Val> {
    let bytes = unbase64(part_text(msg, kind)?.as_str()?);
    match fmt {
        Fmt::Json => serde_json::from_slice(&bytes).ok(),
        Fmt::Bin => postcard::from_bytes(&bytes).ok(),
    }
}

/// A message without the randomness of its direct part and without signatures.
fn norm_msg(msg: &Msg, to: u8, cfg: &Cfg) -> String {
    let mut v = to_json(msg);
    for (k, f) in FIELDS {
        v[f]["signature"] = Value::Null;
        if k == D || !cfg.flat {
            if let Some(mut d) = val_of(msg, k, cfg.fmt) {
                d.fresh = 0;
                v[f]["message_with_metadata"]["message"] = serde_json::json!(format!("{d:?}"));
            }
        }
    }
    format!("to {to}: {v}")
}

/// What the session API leads to.
#[derive(Default)]
pub struct Hand {
    /// Regular ends, with the messages sent until then.
    pub finished: BTreeSet<(Norm, Vec<String>)>,
    /// After the given number of consumed messages.
    pub terminated: BTreeMap<usize, BTreeSet<Norm>>,
    /// Everything that could have been sent at most after so many consumed messages.
    pub sent: BTreeSet<String>,
    /// All messages are consumed and the session waits for more.
    pub waits: bool,
    pub states: u64,
    pub failed: Option<String>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Act {
    Pre,
    Add(usize),
    /// From now on nothing is taken from the queue.
    Cancel,
}

pub fn by_hand(cfg: &Arc<Cfg>, me: u8, arriving: &[(u8, Msg, String)], split: bool, par: bool) -> Hand {
    let mut hand = Hand::default();
    let mut seen: HashSet<u128> = HashSet::new();
    let mut todo: Vec<Vec<Act>> = vec![vec![]];
    while let Some(path) = todo.pop() {
        if let Err(f) = hand_run(cfg, me, arriving, split, par, &path, &mut hand, &mut seen, &mut todo) {
            hand.failed = Some(format!("the session driven by hand {f} after {path:?}"));
            break;
        }
    }
    hand
}

#[allow(clippy::too_many_arguments)]
fn hand_run(
    cfg: &Arc<Cfg>,
    me: u8,
    arriving: &[(u8, Msg, String)],
    split: bool,
    par: bool,
    path: &[Act],
    hand: &mut Hand,
    seen: &mut HashSet<u128>,
    todo: &mut Vec<Vec<Act>>,
) -> Res<()> {
    let mut node = make_node(cfg, me, 0)?;
    let mut sent = Vec::new();
    let send = |node: &mut Box<dyn NodeDyn>| -> Res<Vec<String>> {
        Ok(node.make_all()?.into_iter().map(|(to, m)| norm_msg(&m, to, cfg)).collect())
    };
    sent.extend(send(&mut node)?);
    let mut pend: BTreeSet<usize> = BTreeSet::new();
    let (mut k, mut cancelled) = (0, false);
    let mut steps = path.iter();
    let mut stopped = None;
    loop {
        // Whether the session ends or goes on.
        if !cancelled {
            match node.can_finalize()? {
                Cf::Yes if pend.is_empty() => {
                    stopped = None;
                    match node.finalize()? {
                        Fin::Done(rep) => {
                            sent.sort();
                            hand.sent.extend(sent.iter().cloned());
                            hand.finished.insert((norm(&rep, cfg.flat), sent));
                            return Ok(());
                        }
                        Fin::Next { node: n, cached } => {
                            node = n;
                            sent.extend(send(&mut node)?);
                            pend = cached.into_iter().map(|(_, i)| i).collect();
                            continue;
                        }
                    }
                }
                Cf::NotYet => {}
                c => stopped = Some(c),
            }
        }
        if pend.is_empty() && (cancelled || stopped == Some(Cf::Never)) {
            let rep = node.terminate(!cancelled)?;
            sent.sort();
            hand.sent.extend(sent.iter().cloned());
            if cancelled {
                hand.terminated.entry(k).or_default().insert(norm(&rep, cfg.flat));
            } else {
                hand.finished.insert((norm(&rep, cfg.flat), sent));
            }
            return Ok(());
        }
        let act = match steps.next() {
            Some(a) => *a,
            None => {
                let mut h = MixHash::default();
                node.feed_debug(&mut h);
                h.feed(format!("{pend:?}{k}{cancelled}{stopped:?}{:?}", node.round()).as_bytes());
                let (a, b) = h.out();
                if !seen.insert(((a as u128) << 64) | b as u128) {
                    return Ok(());
                }
                hand.states += 1;
                hand.sent.extend(sent.iter().cloned());
                let mut go = |a: Act| todo.push(path.iter().copied().chain([a]).collect());
                let one_by_one = !split && !pend.is_empty();
                for p in pend.iter().take(if one_by_one { 1 } else { usize::MAX }) {
                    go(Act::Add(*p));
                }
                if !cancelled && stopped.is_none() && !one_by_one {
                    if k < arriving.len() {
                        go(Act::Pre);
                    } else if pend.is_empty() {
                        hand.waits = true;
                    }
                }
                // Also with messages in flight: they are processed, but nothing follows from them.
                if !cancelled && stopped.is_none() && (!one_by_one || par) {
                    go(Act::Cancel);
                }
                return Ok(());
            }
        };
        match act {
            Act::Pre => {
                let (from, msg, _) = &arriving[k];
                k += 1;
                if let Pre::ToProcess(i) = node.pre(*from, msg.clone())? {
                    pend.insert(i);
                }
            }
            Act::Add(i) => {
                pend.remove(&i);
                node.process_add(i)?;
            }
            Act::Cancel => cancelled = true,
        }
    }
}

/// Depth-first enumeration of choices.
#[derive(Default)]
pub struct Dfs {
    pub prefix: Vec<usize>,
    pub trace: Vec<(Kind, usize, usize)>,
    pub diverged: bool,
}

pub struct Shared(pub Arc<Mutex<Dfs>>);
impl Chooser for Shared {
    fn choose(&mut self, kind: Kind, n: usize) -> usize {
        let mut d = self.0.lock().unwrap();
        let mut c = d.prefix.get(d.trace.len()).copied().unwrap_or(0);
        if c >= n {
            d.diverged = true;
            c = 0;
        }
        d.trace.push((kind, n, c));
        c
    }
}

fn cost(kind: Kind, choice: usize) -> usize {
    (!matches!(kind, Kind::Fault) && choice > 0) as usize
}

/// The next prefix in depth-first order, within the bound on deviations.
pub fn advance(trace: &[(Kind, usize, usize)], bound: usize) -> Option<Vec<usize>> {
    let mut used: Vec<usize> = vec![0];
    for (k, _, c) in trace {
        used.push(used.last().unwrap() + cost(*k, *c));
    }
    for i in (0..trace.len()).rev() {
        let (k, n, c) = trace[i];
        if c + 1 < n && used[i] + cost(k, c + 1) <= bound {
            let mut p: Vec<usize> = trace[..i].iter().map(|t| t.2).collect();
            p.push(c + 1);
            return Some(p);
        }
    }
    None
}

/// Runs `exec` for every sequence of choices; it is given a chooser and returns whether to go on.
pub fn enumerate(bound: usize, max: u64, mut exec: impl FnMut(Box<dyn Chooser>) -> bool) -> (u64, u64, bool, bool) {
    let dfs = Arc::new(Mutex::new(Dfs::default()));
    let (mut runs, mut points) = (0, 0);
    loop {
        dfs.lock().unwrap().trace.clear();
        let go_on = exec(Box::new(Shared(dfs.clone())));
        runs += 1;
        let mut d = dfs.lock().unwrap();
        points += d.trace.len() as u64;
        if d.diverged {
            return (runs, points, false, true);
        }
        if !go_on {
            return (runs, points, true, false);
        }
        match advance(&d.trace, bound) {
            None => return (runs, points, true, false),
            Some(p) => d.prefix = p,
        }
        if runs >= max {
            return (runs, points, false, false);
        }
    }
}

pub fn trace_text(trace: &[(Kind, usize, usize)]) -> String {
    trace.iter().map(|(k, n, c)| format!("{}{c}/{n}", &format!("{k:?}")[..1])).collect::<Vec<_>>().join(" ")
}

struct Observed {
    result: Result<Result<Rep, String>, String>,
    left: usize,
    sent: Vec<(u8, u8, String, Msg)>,
    cancelled: bool,
    made: Vec<Val>,
}

fn execute(job: &AsynJob, chooser: Box<dyn Chooser>) -> (Outcome, Option<Observed>, Vec<String>) {
    dispatch!(job.cfg.topo, job.cfg.fmt, execute_typed(job, chooser))
}

pub fn setup(cfg: &Cfg, inner_cap: Option<usize>) -> Setup {
    let shapes = cfg.shapes.clone();
    Setup { worker_init: Some(Arc::new(move || set_shapes(&shapes))), capacity: inner_cap.map(|c| (64, c)) }
}

fn execute_typed<T: Topology, F: WireFormat>(
    job: &AsynJob,
    chooser: Box<dyn Chooser>,
) -> (Outcome, Option<Observed>, Vec<String>) {
    set_shapes(&job.cfg.shapes);
    let cfg = job.cfg.clone();
    let (me, par, cancel) = (job.me, job.par, job.cancel);
    let arriving: Vec<(u8, Msg)> = job.arriving.iter().map(|(f, m, _)| (*f, m.clone())).collect();
    let (out_cap, n) = (job.out_cap, arriving.len());
    let root = async move {
        let start = start_of(&cfg);
        let obs = start.obs.clone();
        let mut rng = if cfg.flat { flat_rng(&cfg, 0, me) } else { DetRng::new(&[7, cfg.session as u64, me as u64]) };
        let session = match Session::<T::P, Sp<F>>::new(&mut rng, session_id(cfg.session), Signer(me), T::ep(start)) {
            Ok(s) => s,
            Err(e) => panic!("{e}"),
        };
        let (in_tx, mut in_rx) = mpsc::channel::<MessageIn<Sp<F>>>(n.max(1));
        let (out_tx, mut out_rx) = mpsc::channel::<MessageOut<Sp<F>>>(out_cap);
        let token = CancellationToken::new();
        let t2 = token.clone();
        let node = tokio::spawn(async move {
            let r: Result<SessionReport<T::P, Sp<F>>, LocalError> = if par {
                par_run_session(&mut rng, &out_tx, &mut in_rx, t2, session).await
            } else {
                run_session(&mut rng, &out_tx, &mut in_rx, t2, session).await
            };
            (r, in_rx)
        });
        if cancel {
            let t = token.clone();
            tokio::mc::on_fault(move || t.cancel());
        }
        for (from, message) in arriving {
            let _ = in_tx.send(MessageIn { from: Id(from), message }).await;
        }
        let mut sent = Vec::new();
        while let Some(m) = out_rx.recv().await {
            sent.push((m.from.0, m.to.0, format!("{:?}", m.session_id), m.message));
        }
        let (result, left) = match node.await {
            Ok((r, mut rx)) => {
                let mut left = 0;
                while rx.try_recv().is_ok() {
                    left += 1;
                }
                (Ok(r.map(|rep| rep_of::<T, F>(&cfg, rep)).map_err(|e| e.to_string())), left)
            }
            Err(e) => (Err(e.to_string()), 0),
        };
        drop(in_tx);
        let made = obs.made.lock().unwrap().clone();
        Observed { result, left, sent, cancelled: token.is_cancelled(), made }
    };
    let _call = crate::report::watch::call();
    tokio::mc::run(chooser, setup(&job.cfg, job.inner_cap), 50_000, root)
}

fn check(job: &AsynJob, hand: &Hand, outcome: &Outcome, obs: Option<&Observed>, panics: &[String]) -> Result<(), (String, String)> {
    let bad = |key: &str, detail: String| Err((key.to_string(), detail));
    if !panics.is_empty() {
        return bad("panic", panics.join("; "));
    }
    let obs = match (outcome, obs) {
        (Outcome::Done, Some(o)) => o,
        (Outcome::Deadlock(_), _) if hand.waits && !job.cancel => return Ok(()),
        (Outcome::Deadlock(who), _) => return bad("deadlock", format!("waiting: {who}")),
        (Outcome::Livelock, _) => return bad("endless execution", String::new()),
        (Outcome::Done, None) => return bad("no result", String::new()),
    };
    let rep = match &obs.result {
        Ok(Ok(rep)) => rep,
        Ok(Err(e)) => return bad("local error", e.clone()),
        Err(e) => return bad("the task failed", e.clone()),
    };
    let got = norm(rep, job.cfg.flat);
    let session = format!("{:?}", session_id(job.cfg.session));
    let mut sent = Vec::new();
    for (from, to, sid, m) in &obs.sent {
        if *from != job.me || *sid != session {
            return bad("outgoing message with wrong attributes", format!("from {from} to {to}, session {sid}"));
        }
        sent.push(norm_msg(m, *to, &job.cfg));
    }
    sent.sort();
    if let Some(w) = sent.windows(2).find(|w| w[0] == w[1]) {
        return bad("a message is sent twice", w[0].clone());
    }
    if got.outcome == "Terminated" {
        if !obs.cancelled {
            return bad("terminated without being cancelled", got.brief());
        }
        let k = job.arriving.len() - obs.left;
        let may = hand.terminated.get(&k).cloned().unwrap_or_default();
        if !may.contains(&got) {
            let want = may.iter().map(|n| n.brief()).collect::<Vec<_>>().join("\n  or ");
            return bad("report of a cancelled session", format!("{}\n  after {k} messages; by hand: {want}", got.brief()));
        }
        if let Some(m) = sent.iter().find(|m| !hand.sent.contains(*m)) {
            return bad("unexpected message", m.clone());
        }
        return Ok(());
    }
    let Some((_, should)) = hand.finished.iter().find(|(n, s)| *n == got && *s == sent) else {
        if let Some((_, s)) = hand.finished.iter().find(|(n, _)| *n == got) {
            let missing: Vec<_> = s.iter().filter(|m| !sent.contains(m)).collect();
            let extra: Vec<_> = sent.iter().filter(|m| !s.contains(m)).collect();
            return bad("messages sent", format!("not sent: {missing:?}; unexpected: {extra:?}"));
        }
        let want = hand.finished.iter().map(|(n, _)| n.brief()).collect::<Vec<_>>().join("\n  or ");
        return bad("report", format!("{}\n  by hand: {want}", got.brief()));
    };
    let _ = should;
    // The artifacts are those of the messages that were sent.
    if let Out::Result(log) = &rep.outcome {
        for r in &log.0 {
            for (to, a) in &r.arts {
                let Some(a) = a else { continue };
                let sent = obs
                    .sent
                    .iter()
                    .filter(|(_, t, _, _)| t == to)
                    .filter_map(|(_, _, _, m)| val_of(m, D, job.cfg.fmt))
                    .find(|v| v.slot == r.slot && v.round == r.num);
                if sent.map(|v| v.fresh) != Some(a.fresh) || a.to != *to || a.round != r.num {
                    return bad("artifact of another message", format!("{a:?} for {to}"));
                }
            }
        }
        if !job.cfg.flat {
            let mut fresh: HashMap<u64, String> = HashMap::new();
            let all = obs
                .made
                .iter()
                .map(|v| (v.fresh, format!("{v:?}")))
                .chain(log.0.iter().map(|r| (r.fin_fresh, format!("finalizing round {}", r.num))));
            for (f, what) in all {
                if let Some(o) = fresh.insert(f, what.clone()) {
                    return bad("the same randomness is used twice", format!("{o} and {what}"));
                }
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx, jobs: &[AsynJob]) {
    let wanted: Vec<&AsynJob> = jobs.iter().filter(|j| ctx.wants(&j.name)).collect();
    ctx.par(&wanted, |job| {
        let t = std::time::Instant::now();
        let hand = by_hand(&job.cfg, job.me, &job.arriving, job.par && job.arriving.len() <= 12, job.par);
        let key = |k: &str| format!("{} {}: {k}", if job.par { "parallel" } else { "sequential" }, job.cfg.name);
        let order = || job.arriving.iter().map(|a| format!("arrives from {}: {}", a.0, a.2)).collect::<Vec<_>>();
        if let Some(f) = &hand.failed {
            ctx.violation(key("by hand"), f.clone(), order());
            return;
        }
        let dfs: Arc<Mutex<Dfs>> = Arc::new(Mutex::new(Dfs::default()));
        let (mut runs, mut points, mut ends) = (0u64, 0u64, BTreeSet::new());
        loop {
            dfs.lock().unwrap().trace.clear();
            let (outcome, obs, panics) = execute(job, Box::new(Shared(dfs.clone())));
            runs += 1;
            let mut d = dfs.lock().unwrap();
            points += d.trace.len() as u64;
            if let Some(Ok(Ok(r))) = obs.as_ref().map(|o| &o.result) {
                ends.insert(norm(r, job.cfg.flat));
            }
            if d.diverged {
                ctx.incomplete(format!("{}: the execution is not determined by the choices", job.name));
                break;
            }
            if let Err((k, detail)) = check(job, &hand, &outcome, obs.as_ref(), &panics) {
                let mut trace = order();
                trace.push(format!("choices: {}", trace_text(&d.trace)));
                if let Some(o) = &obs {
                    trace.extend(o.sent.iter().map(|s| format!("sent to {}: {}", s.1, to_json(&s.3))));
                }
                ctx.violation(key(&k), detail, trace);
                break;
            }
            match advance(&d.trace, job.bound) {
                None => break,
                Some(p) => d.prefix = p,
            }
            if runs >= job.max_runs {
                ctx.incomplete(format!("{}: {runs} schedules", job.name));
                break;
            }
            if std::time::Instant::now() > ctx.deadline() {
                ctx.incomplete(format!("{}: out of time after {runs} schedules", job.name));
                break;
            }
        }
        ctx.add(hand.states, points, runs);
        ctx.count("schedules", runs);
        ctx.count("different_reports", ends.len() as u64);
        ctx.count("reports_by_hand", (hand.finished.len() + hand.terminated.values().map(|s| s.len()).sum::<usize>()) as u64);
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{}: {runs} schedules, {points} points, {} ends of {}+{} ({} states), {:.1?}", job.name, ends.len(), hand.finished.len(),
                hand.terminated.values().map(|s| s.len()).sum::<usize>(), hand.states, t.elapsed());
        }
        ctx.sample(serde_json::json!({ "job": job.name, "arrivals": order(), "schedules": runs, "choices": points, "different_reports": ends.len() }));
    });
}
