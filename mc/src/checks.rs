//! The checks of the properties.
use std::sync::Arc;

use crate::asyn::{self, AsynJob};
use crate::attacks::*;
use crate::evid::{self, EvidJob};
use crate::ext::{self, ExtJob};
use crate::closed::{run_jobs, Bad, Job};
use crate::local::adjacent;
use crate::open::{self, OpenJob, Opts};
use crate::node::*;
use crate::proto::*;
use crate::report::Ctx;
use crate::serial::{self, SerialJob, What};
use crate::shapes::*;
use crate::sysrun::{self, Runner, SysJob};

pub fn run(ctx: &Ctx) -> i32 {
    let (assumptions, rule): (Vec<&str>, &str) = match ctx.property.as_str() {
        "C01" => c01(ctx),
        "C02" | "C03" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C18" | "C19" => open_check(ctx),
        "C04" => evid_check(ctx),
        "C22" => {
            open::run(ctx, &req_jobs(ctx));
            evid_check(ctx)
        }
        "C13" | "C14" => asyn_check(ctx),
        "C17" => serial_check(ctx),
        "C15" => chain_check(ctx),
        "C16" => ext_check(ctx),
        "C20" | "C21" => sys_check(ctx),
        "ALL" => all(ctx),
        p => {
            eprintln!("unknown property {p}");
            return 2;
        }
    };
    ctx.finish(&assumptions, rule)
}

fn grid(s: Shape) -> Arc<Cfg> {
    Arc::new(Cfg::grid(s))
}

pub fn chain(topo: Topo, shapes: Vec<Shape>) -> Arc<Cfg> {
    let name = format!("{topo:?} {}", shapes.iter().map(|s| s.name.clone()).collect::<Vec<_>>().join(" + "));
    let mut arr: [Option<Arc<Shape>>; SLOTS] = Default::default();
    for (i, s) in shapes.into_iter().enumerate() {
        arr[i] = Some(Arc::new(s));
    }
    Arc::new(Cfg { name, shapes: arr, topo, fmt: Fmt::Json, session: 1, flat: false })
}

/// Six protocols chained five levels deep.
pub fn deep(n: u8, combos: [u8; SLOTS]) -> Arc<Cfg> {
    let shapes = combos.iter().enumerate().map(|(i, c)| {
        let s = uniform(i as u8, n, &[*c]).plain().with_reqs(reqs());
        if i % 2 == 1 { s.renumbered(jumbled) } else { s }
    });
    chain(Topo::Deep, shapes.collect())
}

fn c01(ctx: &Ctx) -> (Vec<&'static str>, &'static str) {
    let mut jobs = Vec::new();
    let mut outside = Vec::new();
    let mut add = |cfg: Arc<Cfg>, full: Option<usize>, jobs: &mut Vec<Job>| {
        if !adjacent(&cfg) {
            outside.push(cfg.name.clone());
            return;
        }
        match full {
            Some(m) => jobs.push(Job::Full(cfg, m)),
            None => {
                for id in cfg.parties() {
                    jobs.push(Job::Focus(cfg.clone(), id, 200_000));
                }
            }
        }
    };
    let t = ctx.thorough;
    // Two parties: all interleavings.
    for a in 1..8 {
        add(grid(uniform(0, 2, &[a])), Some(1_000_000), &mut jobs);
        for b in 1..8 {
            add(grid(uniform(0, 2, &[a, b])), Some(1_000_000), &mut jobs);
        }
    }
    for a in [D, E, N, 7] {
        for b in [D, E, N, 7] {
            for c in [D, E, N, 7] {
                add(grid(uniform(0, 2, &[a, b, c])), Some(1_000_000), &mut jobs);
            }
        }
    }
    for s in special(2).into_iter().chain(branching(2)) {
        add(grid(s), Some(1_000_000), &mut jobs);
    }
    // Three parties: all interleavings of short shapes.
    for v in [&[D][..], &[E], &[N], &[7], &[D, N], &[D, E], &[E, D]] {
        add(grid(uniform(0, 3, v)), Some(if t { 20_000_000 } else { 300_000 }), &mut jobs);
    }
    // Three and four parties: all orders at each node.
    for n in [3, 4] {
        for v in [&[D, E, N][..], &[E, E, E], &[N, D, E], &[7, 7], &[D | E, E | N, D | N], &[E, D, E, N]] {
            add(grid(uniform(0, n, v)), None, &mut jobs);
            add(Arc::new(Cfg::grid(uniform(0, n, v)).bin()), None, &mut jobs);
        }
        for s in special(n).into_iter().chain(branching(n)) {
            add(grid(s), None, &mut jobs);
        }
    }
    // Other numbers of rounds, longer contents, more parties, chains.
    for f in [spread, jumbled] {
        for v in [&[D, E, N][..], &[E, D], &[7, 7]] {
            add(grid(uniform(0, 2, v).renumbered(f)), Some(1_000_000), &mut jobs);
            add(grid(uniform(0, 3, v).renumbered(f)), None, &mut jobs);
        }
        for s in branching(2).into_iter().chain(special(2).into_iter().filter(|s| s.name.contains("leader") || s.name.contains("silent"))) {
            add(grid(s.renumbered(f)), Some(1_000_000), &mut jobs);
        }
        for s in branching(3) {
            add(grid(s.renumbered(f)), None, &mut jobs);
        }
    }
    for n in 2..=4 {
        for s in forks(n) {
            add(grid(s.clone()), (n == 2).then_some(1_000_000), &mut jobs);
            add(grid(s.renumbered(jumbled)), (n == 2).then_some(1_000_000), &mut jobs);
        }
    }
    for bin in [false, true] {
        for pad in [120, 300, 70_000] {
            let c = Cfg::grid(uniform(0, 2, &[7]).padded(pad));
            add(Arc::new(if bin { c.bin() } else { c }), Some(1_000_000), &mut jobs);
        }
    }
    for v in [&[E][..], &[N, D], &[D | E]] {
        add(grid(uniform(0, 5, v)), None, &mut jobs);
    }
    add(grid(uniform(0, 6, &[E])), None, &mut jobs);
    add(grid(uniform(0, 2, &[D, E, N, D | E, E | N])), Some(1_000_000), &mut jobs);
    let s = |i: u8, n: u8, c: &[u8]| uniform(i, n, c);
    for (a, b) in [(&[D][..], &[E][..]), (&[E], &[D, N]), (&[N, E], &[E])] {
        for n in [2, 3] {
            for f in [None, Some(spread as fn(u8) -> u8), Some(jumbled)] {
                let r = |s: Shape| f.map_or(s.clone(), |f| s.renumbered(f));
                let c = chain(Topo::Two, vec![r(s(0, n, a)), r(s(1, n, b))]);
                add(c, (n == 2).then_some(1_000_000), &mut jobs);
            }
        }
    }
    add(deep(2, [D, E, N, D, E, N]), Some(1_000_000), &mut jobs);
    add(deep(3, [E, N, D, E, 0, D]), None, &mut jobs);
    ctx.count("shapes_outside_of_the_contract", outside.len() as u64);
    if std::env::var("MC_VERBOSE").is_ok() {
        eprintln!("outside: {outside:?}");
    }
    run_jobs(ctx, &jobs, |b| b != Bad::Missing || true);
    (vec!["rounds active at the same time are declared as such by the protocol"], "every order of deliveries, cached deliveries and finalizations")
}

/// What to explore at a node.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Fam {
    /// Only good messages, any of them any number of times.
    Repeat,
    /// Only good messages; arrival and processing are separate steps.
    Split,
    /// One other party does anything for one of its phases, and repeats messages.
    One,
    /// Two messages of the menu of one party for two different phases.
    /// Two other parties do something wrong.
    Two,
    /// Messages of parties that are not expected to send anything.
    Strangers,
}

pub fn open_jobs(cfg: &Arc<Cfg>, me: u8, fams: &[Fam], atks: &[Atk], max: usize) -> Vec<OpenJob> {
    let a = Arena::new(cfg, me).unwrap_or_else(|e| panic!("{}: {e}", cfg.name));
    let mut jobs = Vec::new();
    let mut add = |sys, split, name: String| {
        jobs.push(OpenJob { sys, opts: Opts { split, max_states: max, reports: true, deadline: None }, name });
    };
    let others: Vec<u8> = cfg.parties().into_iter().filter(|p| *p != me).collect();
    for f in fams {
        match f {
            Fam::Repeat => add(a.sys(vec![], &others), false, "repeated messages".into()),
            Fam::Split => add(a.sys(vec![], &[]), true, "separate processing".into()),
            Fam::One => {
                for g in &others {
                    for ph in a.phases_of(*g) {
                        let bad: Vec<_> = atks.iter().filter_map(|t| a.attack(*g, ph, *t)).collect();
                        if !bad.is_empty() {
                            add(a.sys(bad, &[*g]), false, format!("{g} deviates in {}", cfg.round_name(ph.0, ph.1, ph.2)));
                        }
                    }
                }
            }
            Fam::Two => {
                for (i, g) in others.iter().enumerate() {
                    for h in &others[i + 1..] {
                        for p in a.phases_of(*g) {
                            for q in a.phases_of(*h) {
                                let atks: Vec<_> = atks.iter().filter(|t| **t != Atk::Resigned).collect();
                                let mut bad: Vec<_> = atks.iter().filter_map(|t| a.attack(*g, p, **t)).collect();
                                bad.extend(atks.iter().filter_map(|t| a.attack(*h, q, **t)));
                                add(
                                    a.sys(bad, &[]),
                                    false,
                                    format!("{g} deviates in {}, {h} in {}", cfg.round_name(p.0, p.1, p.2), cfg.round_name(q.0, q.1, q.2)),
                                );
                            }
                        }
                    }
                }
            }
            Fam::Strangers => {
                let mut bad = vec![];
                for ph in phases_to(&a) {
                    bad.extend(a.outsider(ph));
                    bad.extend(a.reflected(ph));
                    for g in &others {
                        if a.good(*g, ph).is_none() {
                            bad.extend(a.uninvited(*g, ph));
                        }
                    }
                }
                add(a.sys(bad, &[]), false, "strangers".into());
            }
        }
    }
    jobs
}

fn sig_attacks() -> Vec<Atk> {
    all_attacks().into_iter().filter(|a| {
        use Atk::*;
        matches!(a, Alt | Resigned | SigSwap(_) | SigGarbage(_) | OtherSession | OtherSessionPart(_) | OtherRoundPart(_) | Relabel | RelabelSession
            | ContentSwap(_) | PartOfOther(_) | RoleSwap(..) | OfOther)
    }).collect()
}
fn form_attacks() -> Vec<Atk> {
    all_attacks().into_iter().filter(|a| matches!(a, Atk::Alt | Atk::Undecodable(_) | Atk::Missing(_) | Atk::Extra(_) | Atk::PackDuplicate)).collect()
}
fn tag_attacks() -> Vec<Atk> {
    all_attacks().into_iter().filter(|a| {
        matches!(a, Atk::Alt | Atk::TagUnprov(_) | Atk::TagProv(_) | Atk::Stale(_) | Atk::WrongAddressee | Atk::UnknownRound)
    }).collect()
}
fn echo_attacks() -> Vec<Atk> {
    all_attacks().into_iter().filter(|a| format!("{a:?}").starts_with("Pack") || matches!(a, Atk::Alt | Atk::Resigned)).collect()
}
/// One attack of every class of consequences.
fn few_attacks() -> Vec<Atk> {
    vec![
        Atk::Alt, Atk::Resigned, Atk::SigSwap(E), Atk::SigSwap(D), Atk::OtherSession, Atk::Undecodable(D), Atk::Undecodable(N), Atk::TagProv(D), Atk::TagProv(E),
        Atk::TagUnprov(N), Atk::Missing(E), Atk::PackAlt, Atk::PackMissing, Atk::PackBrokenSig,
    ]
}

const ALL_FAMS: [Fam; 4] = [Fam::Repeat, Fam::Split, Fam::One, Fam::Strangers];

/// The exploration of one session against everything, for the properties it decides.
fn open_check(ctx: &Ctx) -> (Vec<&'static str>, &'static str) {
    let mut jobs: Vec<OpenJob> = Vec::new();
    let every = all_attacks();
    let big = if ctx.thorough { 200_000 } else { 90_000 };
    let mut add = |cfg: &Arc<Cfg>, me: u8, fams: &[Fam], atks: &[Atk]| {
        if adjacent(cfg) {
            jobs.extend(open_jobs(cfg, me, fams, atks, big));
        }
    };
    let p = |s: Shape| grid(s.plain());
    let find = |v: Vec<Shape>, name: &str| p(v.into_iter().find(|s| s.name == name).unwrap_or_else(|| panic!("no shape {name}")));
    let two = chain(Topo::Two, vec![uniform(0, 2, &[D]).plain(), uniform(1, 2, &[E]).plain()]);
    // Explored for every property.
    add(&p(uniform(0, 2, &[D, N])), 1, &ALL_FAMS, &every);
    add(&p(uniform(0, 2, &[E, D])), 1, &[Fam::Repeat, Fam::Split, Fam::One], &every);
    add(&p(uniform(0, 3, &[D, N])), 2, &ALL_FAMS, &every);
    add(&p(uniform(0, 3, &[E])), 1, &ALL_FAMS, &every);
    add(&find(special(3), "n3 leader EN-EN"), 1, &ALL_FAMS, &every);
    add(&find(special(3), "n3 leader EN-EN"), 2, &ALL_FAMS, &every);
    add(&find(branching(2), "n2 second branch D-N-D"), 1, &ALL_FAMS, &every);
    add(&two, 1, &ALL_FAMS, &every);
    add(&p(uniform(0, 2, &[D, E, N]).renumbered(jumbled)), 1, &[Fam::Repeat, Fam::Split, Fam::One], &few_attacks());
    add(&p(uniform(0, 2, &[N, D]).renumbered(spread)), 1, &[Fam::Repeat, Fam::One, Fam::Strangers], &few_attacks());
    let ed = p(uniform(0, 3, &[E, D]));
    let special_e = find(special(3), "n3 all receive, one does not send DE-N");
    let group: Vec<Atk> = match ctx.property.as_str() {
        "C02" => few_attacks(),
        "C03" | "C06" => echo_attacks(),
        "C05" => vec![Atk::Alt, Atk::Undecodable(E), Atk::Extra(N), Atk::TagProv(D), Atk::TagProv(E), Atk::PackAlt, Atk::PackBrokenSig, Atk::PackOtherRound],
        "C07" => sig_attacks(),
        "C08" | "C10" | "C18" => vec![Atk::Alt],
        "C19" => form_attacks(),
        "C09" | "C11" | "C12" => few_attacks(),
        _ => vec![],
    };
    add(&ed, 1, &[Fam::Repeat, Fam::Split, Fam::One], &group);
    match ctx.property.as_str() {
        "C02" => {
            add(&Arc::new(Cfg::grid(uniform(0, 3, &[D, N]).plain()).bin()), 1, &ALL_FAMS, &every);
            add(&find(special(3), "n3 silent end"), 1, &ALL_FAMS, &few_attacks());
            add(&p(uniform(0, 3, &[E])), 1, &[Fam::Two], &few_attacks());
        }
        "C03" | "C05" | "C06" => {
            add(&p(uniform(0, 4, &[E])), 1, &[Fam::One], &[Atk::Alt, Atk::PackAlt, Atk::PackMissing, Atk::PackBrokenSig, Atk::PackOtherKind(D)]);
            add(&p(uniform(0, 3, &[E])), 1, &[Fam::Two], &[Atk::Alt, Atk::PackAlt, Atk::PackBrokenSig, Atk::PackOwn, Atk::TagProv(E)]);
            add(&p(uniform(0, 2, &[7])), 1, &ALL_FAMS, &every);
        }
        "C07" => {
            add(&p(uniform(0, 2, &[7])), 1, &ALL_FAMS, &every);
            add(&p(uniform(0, 2, &[D | E, E | N])), 1, &[Fam::One], &group);
            add(&Arc::new(Cfg::grid(uniform(0, 2, &[7]).plain()).bin()), 1, &ALL_FAMS, &every);
            for n in [100, 600] {
                add(&p(uniform(0, 2, &[7]).padded(n)), 1, &[Fam::One], &every);
                add(&Arc::new(Cfg::grid(uniform(0, 2, &[7]).plain().padded(n)).bin()), 1, &[Fam::One], &every);
            }
        }
        "C08" | "C10" | "C18" => {
            add(&p(uniform(0, 2, &[E, E])), 1, &[Fam::Repeat, Fam::Split, Fam::One], &[Atk::Alt]);
            add(&p(uniform(0, 2, &[7, 7])), 1, &[Fam::Repeat, Fam::Split, Fam::One], &[Atk::Alt]);
            add(&find(branching(2), "n2 second branch E-D-N"), 1, &[Fam::Repeat, Fam::Split, Fam::One], &[Atk::Alt]);
            add(&find(branching(3), "n3 second branch D-N-D"), 1, &[Fam::Repeat, Fam::Split], &[]);
            for s in forks(2) {
                add(&p(s.clone()), 1, &[Fam::Repeat, Fam::Split], &[]);
                add(&p(s), 2, &[Fam::Repeat, Fam::Split], &[]);
            }
            for s in forks(3).into_iter().take(4) {
                let mut s2 = s.clone().plain();
                s2.slot = 1;
                let c = chain(Topo::Two, vec![uniform(0, 3, &[D]).plain(), s2]);
                add(&c, 1, &[Fam::Repeat], &[]);
                add(&c, 3, &[Fam::Repeat], &[]);
                add(&p(s.clone()), 1, &[Fam::Repeat], &[]);
                add(&p(s), 3, &[Fam::Repeat], &[]);
            }
            for f in [spread, jumbled] {
                for s in branching(2) {
                    add(&p(s.renumbered(f)), 1, &[Fam::Repeat, Fam::Split], &[]);
                    add(&p(s.renumbered(f)), 2, &[Fam::Repeat], &[]);
                }
                add(&p(uniform(0, 2, &[E, E, D]).renumbered(f)), 1, &[Fam::Repeat, Fam::Split, Fam::One], &[Atk::Alt]);
            }
            add(&special_e, 1, &[Fam::Repeat, Fam::Split], &[]);
            let answers = find(special(3), "n3 leader with answers DE-D");
            for me in [1, 2, 3] {
                add(&answers, me, &[Fam::Repeat, Fam::Split, Fam::One], &[Atk::Alt]);
            }
            add(&p(uniform(0, 3, &[D, D, D])), 1, &[Fam::Repeat, Fam::Split], &[]);
        }
        "C09" | "C11" | "C12" => {
            add(&p(uniform(0, 3, &[E])), 1, &[Fam::Two], &few_attacks());
            add(&p(uniform(0, 2, &[E, E])), 1, &[Fam::Repeat, Fam::One], &few_attacks());
            add(&p(uniform(0, 3, &[D])), 1, &[Fam::Two], &few_attacks());
            add(&p(uniform(0, 4, &[N])), 1, &[Fam::Two], &[Atk::SigSwap(N), Atk::Undecodable(N), Atk::TagUnprov(N)]);
        }
        "C19" => {
            for c in [D | E, D | N, E | N, 7] {
                add(&p(uniform(0, 2, &[c])), 1, &ALL_FAMS, &every);
                add(&Arc::new(Cfg::grid(uniform(0, 2, &[c]).plain()).bin()), 1, &[Fam::One], &every);
            }
        }
        _ => {}
    }
    if ctx.thorough {
        add(&ed, 1, &ALL_FAMS, &every);
        add(&p(uniform(0, 3, &[7, E])), 3, &[Fam::Repeat, Fam::Split, Fam::One], &every);
        add(&p(uniform(0, 3, &[E, E])), 2, &[Fam::Repeat, Fam::Split, Fam::One], &group);
        add(&p(uniform(0, 3, &[D, N])), 2, &[Fam::Two], &few_attacks());
        for s in special(3).into_iter().chain(branching(2)).chain(branching(3)) {
            let s = p(s);
            add(&s, 1, &[Fam::Repeat, Fam::Split, Fam::One], &group);
            add(&s, 2, &[Fam::Repeat, Fam::Split, Fam::One], &few_attacks());
        }
        for s in [vec![E, D], vec![D, E, N]] {
            let c = Arc::new(Cfg::grid(uniform(0, 2, &s).plain()).bin());
            add(&c, 1, &[Fam::Repeat, Fam::Split, Fam::One], &every);
        }
        for (t, v) in [
            (Topo::Two, vec![vec![E], vec![D]]),
            (Topo::Left, vec![vec![D], vec![E], vec![N]]),
            (Topo::Right, vec![vec![E], vec![D], vec![N]]),
        ] {
            let shapes = v.iter().enumerate().map(|(i, c)| uniform(i as u8, 2, c).plain()).collect();
            add(&chain(t, shapes), 1, &[Fam::Repeat, Fam::Split, Fam::One], &every);
        }
    }
    open::run(ctx, &jobs);
    if ctx.property == "C19" {
        evid::run(ctx, &malformed_jobs(ctx));
    }
    (
        vec![
            "the reference model of the session rules (mc/src/open.rs), which every executed transition is compared with",
            "signatures are ideal: only the owner of a key makes valid ones",
            "states of the real session are identified by the complete debug rendering together with the model state",
        ],
        "every sequence of arrivals, processing steps and finalizations over the listed menus of messages, to closure",
    )
}

fn reqs() -> Vec<Req> {
    let r = |this: u8, prev: &[(u8, u8)], echos: &[u8]| Req {
        this,
        prev: prev.iter().copied().collect(),
        echos: echos.iter().copied().collect(),
    };
    vec![
        r(0, &[], &[]),
        r(7, &[(1, 7)], &[]),
        r(0, &[], &[1]),
        r(0, &[(1, D), (2, E | N)], &[1, 2]),
        r(E, &[(1, N), (2, 7)], &[2]),
    ]
}

/// Offences whose evidence needs messages of earlier rounds, in all orders.
fn req_jobs(ctx: &Ctx) -> Vec<OpenJob> {
    let mut jobs = Vec::new();
    let max = if ctx.thorough { 200_000 } else { 60_000 };
    let tags = |is: std::ops::Range<u8>| is.flat_map(|i| [D, E, N].map(|k| Atk::TagReq(k, i))).collect::<Vec<_>>();
    let with = |s: Shape| s.plain().with_reqs(reqs());
    let mut add = |cfg: Arc<Cfg>, me: u8, fams: &[Fam], extra: &[Atk], n: u8| {
        let atks: Vec<Atk> = tags(0..n).into_iter().chain(extra.iter().copied()).collect();
        jobs.extend(open_jobs(&cfg, me, fams, &atks, max));
    };
    add(grid(with(uniform(0, 2, &[7, 7]))), 1, &[Fam::One], &[Atk::Alt, Atk::Resigned], 5);
    add(grid(with(uniform(0, 2, &[7, 7, 7]))), 1, &[Fam::One], &[], 5);
    add(grid(with(uniform(0, 2, &[7, 7, 5])).renumbered(jumbled)), 1, &[Fam::One], &[], 5);
    add(grid(with(uniform(0, 3, &[E, N, D])).renumbered(spread)), 1, &[Fam::One], &[], 5);
    add(Arc::new(Cfg::grid(with(uniform(0, 2, &[7, 7]))).bin()), 2, &[Fam::One], &[Atk::Alt], 5);
    add(grid(with(uniform(0, 3, &[E | N, D]))), 1, &[Fam::One], &[Atk::Alt], 3);
    add(grid(with(uniform(0, 3, &[E, N]))), 2, &[Fam::One], &[Atk::Alt, Atk::Resigned, Atk::PackAlt], 3);
    add(chain(Topo::Two, vec![with(uniform(0, 2, &[7, D])), with(uniform(1, 2, &[7, N]))]), 1, &[Fam::One], &[Atk::Alt], 3);
    add(chain(Topo::Two, vec![with(uniform(0, 2, &[N])), with(uniform(1, 2, &[7, 7]))]), 2, &[Fam::One], &[Atk::Alt], 5);
    for s in special(3).into_iter().filter(|s| s.name.starts_with("n3 leader") || s.name.starts_with("n3 all receive")) {
        let cfg = grid(with(s));
        if adjacent(&cfg) {
            add(cfg.clone(), 2, &[Fam::One], &[], 3);
            add(cfg, 1, &[Fam::One], &[], 3);
        }
    }
    if ctx.thorough {
        add(grid(with(uniform(0, 3, &[7, 7]))), 1, &[Fam::One], &[Atk::Alt], 5);
        add(grid(with(uniform(0, 3, &[E, N, D]))), 1, &[Fam::One], &[Atk::Alt], 5);
        for t in [Topo::Left, Topo::Right] {
            let c = chain(t, vec![with(uniform(0, 2, &[7, D])), with(uniform(1, 2, &[E, 7])), with(uniform(2, 2, &[7, N]))]);
            add(c, 1, &[Fam::One], &[Atk::Alt], 5);
        }
    }
    jobs
}

fn evid_jobs(ctx: &Ctx) -> Vec<EvidJob> {
    let mut jobs = Vec::new();
    let signed: Vec<Atk> = all_attacks();
    let tags = |is: std::ops::Range<u8>| is.flat_map(|i| [D, E, N].map(|k| Atk::TagReq(k, i))).collect::<Vec<_>>();
    let mut add = |cfg: &Arc<Cfg>, me: u8, honest: u8, atks: Vec<Atk>, histories: bool, pairs: bool, recombine: bool| {
        let mut hist = vec![None];
        if histories {
            hist.extend(cfg.parties().into_iter().filter(|p| *p != honest && *p != me).map(Some));
        }
        for h in hist {
            jobs.push(EvidJob {
                arena: {
                    let mut a = Arena::new(cfg, me).unwrap();
                    a.alt.remove(&honest);
                    a
                },
                honest,
                history: h,
                atks: atks.clone(),
                pairs,
                recombine,
                malformed_only: ctx.property == "C19",
                name: format!("{}: {honest} is honest{}{}", cfg.name, h.map_or(String::new(), |g| format!(", received another message of {g}")),
                    if pairs { ", pairs of replacements" } else { "" }),
            });
        }
    };
    let with = |s: Shape| s.plain().with_reqs(reqs());
    let all_tags: Vec<Atk> = signed.iter().copied().chain(tags(0..5)).collect();
    add(&grid(with(uniform(0, 3, &[7, D | E, D | N]))), 2, 1, all_tags.clone(), true, false, true);
    add(&grid(with(uniform(0, 3, &[E | N, E | N, E | N]))), 2, 1, all_tags.clone(), true, false, true);
    add(&grid(with(uniform(0, 3, &[E, N]))), 2, 1, tags(0..4), true, true, false);
    add(&grid(with(uniform(0, 3, &[D, E, D]))), 2, 3, tags(2..4), false, true, false);
    let two = chain(Topo::Two, vec![with(uniform(0, 3, &[7, D])), with(uniform(1, 3, &[7, N]))]);
    add(&two, 2, 1, all_tags.clone(), false, false, true);
    add(&grid(with(uniform(0, 3, &[E, N, 5])).renumbered(jumbled)), 2, 1, tags(0..5), true, false, true);
    let partial = special(3).into_iter().find(|s| s.name == "n3 all receive, one does not send DE-N").unwrap();
    add(&grid(with(partial)), 1, 2, signed.iter().copied().chain(tags(0..2)).collect(), true, false, true);
    add(&Arc::new(Cfg::grid(with(uniform(0, 3, &[7, D | N]))).bin()), 2, 1, all_tags.clone(), false, false, true);
    if ctx.thorough {
        add(&grid(with(uniform(0, 4, &[E, D]))), 2, 1, all_tags.clone(), true, true, true);
        add(&grid(with(uniform(0, 3, &[E | N, D, N]))), 2, 1, tags(0..5), true, true, true);
        for t in [Topo::Left, Topo::Right] {
            let c = chain(t, vec![with(uniform(0, 3, &[7, D])), with(uniform(1, 3, &[E, 7])), with(uniform(2, 3, &[7, N]))]);
            add(&c, 2, 1, all_tags.clone(), false, false, true);
        }
        let c = chain(Topo::Two, vec![with(uniform(0, 3, &[E, N])), with(uniform(1, 3, &[E, N]))]);
        add(&c, 2, 1, tags(0..3), true, true, false);
    }
    jobs
}

/// Evidence of malformed parts made from everything that is signed.
fn malformed_jobs(ctx: &Ctx) -> Vec<EvidJob> {
    let mut jobs = Vec::new();
    let two = chain(Topo::Two, vec![uniform(0, 3, &[7, D]).plain(), uniform(1, 3, &[E, N]).plain()]);
    let mut cfgs = vec![two, Arc::new(Cfg::grid(uniform(0, 3, &[7, D | N]).plain()).bin())];
    for c in 1..8u8 {
        cfgs.push(grid(uniform(0, 3, &[c, 7]).plain()));
    }
    if ctx.thorough {
        for c in 0..8u8 {
            for d in 1..8u8 {
                cfgs.push(Arc::new(Cfg::grid(uniform(0, 3, &[d, c]).plain()).bin()));
            }
        }
    }
    for cfg in cfgs {
        let mut arena = Arena::new(&cfg, 2).unwrap();
        arena.alt.remove(&1);
        let name = format!("{}: evidence of malformed parts", cfg.name);
        jobs.push(EvidJob { arena, honest: 1, history: None, atks: all_attacks(), pairs: false, recombine: true, malformed_only: true, name });
    }
    jobs
}

fn evid_check(ctx: &Ctx) -> (Vec<&'static str>, &'static str) {
    evid::run(ctx, &evid_jobs(ctx));
    (
        vec![
            "signatures are ideal: only the owner of a key makes valid ones",
            "corrupted parties sign the messages of the listed menus",
        ],
        "every evidence object built from the signed parts in scope, within the stated numbers of replacements",
    )
}

fn serial_jobs(ctx: &Ctx) -> Vec<SerialJob> {
    let mut jobs = Vec::new();
    use What::*;
    let with = |s: Shape| s.plain().with_reqs(reqs());
    let mut add = |cfg: Arc<Cfg>, me: u8, whats: &[What]| {
        for w in whats {
            let lanes = if matches!(w, Messages(_) | RoundIds | Contents | Evidence(Fmt::Bin)) { 4 } else { 1 };
            for l in 0..lanes {
                jobs.push(SerialJob { arena: Arena::new(&cfg, me).unwrap(), what: *w, name: cfg.name.clone(), lane: (l, lanes) });
            }
        }
    };
    let every = [
        EvidenceTrees, Contents, Messages(Fmt::Json), Messages(Fmt::Bin), MessageTrees, Evidence(Fmt::Json), Evidence(Fmt::Bin), EvidenceRoundIds,
        RoundIds, RoundTrips, Foreign,
    ];
    add(grid(with(uniform(0, 3, &[7, D | E]))), 1, &every);
    add(Arc::new(Cfg::grid(with(uniform(0, 2, &[7, 7]))).bin()), 1, &every);
    add(chain(Topo::Two, vec![with(uniform(0, 2, &[7])), with(uniform(1, 2, &[E, N]))]), 2, &every);
    for t in [Topo::Left, Topo::Right] {
        let c = chain(t, vec![with(uniform(0, 2, &[N])), with(uniform(1, 2, &[7])), with(uniform(2, 2, &[E, D]))]);
        add(c, 1, if ctx.thorough { &every } else { &[RoundIds, EvidenceRoundIds, RoundTrips, Foreign] });
    }
    for n in [2, 3] {
        let c = deep(n, [D, N, E, 7, E, D]);
        add(c.clone(), 1, if n == 2 && ctx.thorough { &[RoundTrips, RoundIds] } else { &[RoundTrips] });
        let mut c = (*c).clone();
        c.name += " (binary)";
        c.fmt = Fmt::Bin;
        add(Arc::new(c), 1, &[RoundTrips]);
        for pad in if n == 2 { vec![120, 300, 70_000] } else { vec![300] } {
            add(grid(with(uniform(0, n, &[7, 7]).padded(pad))), 1, &[RoundTrips]);
            add(Arc::new(Cfg::grid(with(uniform(0, n, &[7, 7]).padded(pad))).bin()), 1, &[RoundTrips]);
        }
        for f in [spread, jumbled] {
            add(grid(with(uniform(0, n, &[7, E, D])).renumbered(f)), 1, &[RoundTrips]);
            add(Arc::new(Cfg::grid(with(uniform(0, n, &[7, E, D])).renumbered(f)).bin()), 1, &[RoundTrips]);
        }
    }
    for n in [2, 3] {
        for s in special(n).into_iter().chain(branching(n)).chain((1..8).map(|c| uniform(0, n, &[c, 7]))) {
            for bin in [false, true] {
                let cfg = Arc::new(if bin { Cfg::grid(with(s.clone())).bin() } else { Cfg::grid(with(s.clone())) });
                if adjacent(&cfg) {
                    let me = *cfg.parties().first().unwrap();
                    add(cfg, me, if ctx.thorough { &every } else { &[RoundTrips] });
                }
            }
        }
    }
    jobs
}

fn serial_check(ctx: &Ctx) -> (Vec<&'static str>, &'static str) {
    serial::run(ctx, &serial_jobs(ctx));
    (
        vec!["JSON (serde_json) and postcard are the supported formats", "the harness protocol stands for all protocols"],
        "all lists of pairs up to a length; all messages and evidence of the configurations; all strings one edit away from them, all single replacements of JSON subtrees, all round identifiers up to a depth",
    )
}

/// All orders of the given things.
fn orders<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    if v.len() <= 1 {
        return vec![v.to_vec()];
    }
    let mut out = Vec::new();
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut o in orders(&rest) {
            o.insert(0, x.clone());
            out.push(o);
        }
    }
    out
}

fn asyn_jobs(ctx: &Ctx) -> Vec<AsynJob> {
    let mut jobs = Vec::new();
    let cancel = ctx.property == "C14";
    let t = ctx.thorough;
    /// Which messages arrive besides the good ones.
    #[derive(Debug, Clone, Copy)]
    enum Mod {
        Atk(u8, usize, crate::attacks::Atk),
        Repeat(u8, usize),
        Drop(u8, usize),
    }
    use Mod::*;
    let mut add = |cfg: Arc<Cfg>, me: u8, mods: &[Mod], bound: [usize; 2], all_orders: bool| {
        let base_small = bound[1] > 0;
        let a = Arena::new(&cfg, me).unwrap_or_else(|e| panic!("{}: {e}", cfg.name));
        let mut menu = a.all_good();
        for m in mods {
            match *m {
                Atk(g, p, atk) => {
                    let ph = a.phases_of(g)[p];
                    menu.push(a.attack(g, ph, atk).unwrap_or_else(|| panic!("{}: no {atk:?}", cfg.name)));
                }
                Repeat(g, p) => menu.push(a.good(g, a.phases_of(g)[p]).unwrap()),
                Drop(g, p) => {
                    let ph = a.phases_of(g)[p];
                    menu.retain(|d| d.from != g || d.ph != Some(ph));
                }
            }
        }
        let arr: Vec<_> = menu.iter().map(|d| (d.from, d.msg.clone(), d.label.clone())).collect();
        let all = if all_orders {
            orders(&arr)
        } else {
            vec![arr.clone(), arr.into_iter().rev().collect()]
        };
        let (n, arr_len) = (all.len(), all[0].len());
        // Nothing more arrives after a part of the messages.
        let mut starts = std::collections::BTreeSet::new();
        for (i, o) in all.iter().enumerate().filter(|_| arr_len <= 12) {
            for k in 0..arr_len {
                if !starts.insert(o[..k].iter().map(|x| (x.0, x.2.clone())).collect::<Vec<_>>()) {
                    continue;
                }
                for par in [false, true] {
                    jobs.push(AsynJob {
                        cfg: cfg.clone(),
                        me,
                        arriving: o[..k].to_vec(),
                        par,
                        out_cap: 1,
                        inner_cap: None,
                        bound: (base_small && arr_len <= 3) as usize + t as usize,
                        cancel,
                        max_runs: if t { 100_000 } else { 5_000 },
                        name: format!("{} {} at {me}, {mods:?}, the first {k} of order {i}", if par { "parallel" } else { "sequential" }, cfg.name),
                    });
                }
            }
        }
        for (i, o) in all.into_iter().enumerate() {
            for par in [false, true] {
                let caps = match (par, cfg.parties().len() > 12) {
                    (true, true) => vec![(None, 16)],
                    (true, false) => vec![(None, 1), (Some(1), 16)],
                    _ => vec![(None, 1), (None, 16)],
                };
                for (inner, out_cap) in caps {
                    let base = bound[par as usize];
                    let n = if base == 1 && par && !t && arr_len > 4 { 0 } else { n };
                    let deeper = (base > 0 && n > 0 && (i == 0 || i + 1 == n)) as usize + (t && base > 0) as usize;
                    jobs.push(AsynJob {
                        cfg: cfg.clone(),
                        me,
                        arriving: o.clone(),
                        par,
                        out_cap,
                        inner_cap: inner,
                        bound: base + deeper - (cancel && base > 0) as usize,
                        cancel,
                        max_runs: if t { 300_000 } else { 40_000 },
                        name: format!(
                            "{} {} at {me}, {mods:?}, capacity {out_cap}{}, order {i}",
                            if par { "parallel" } else { "sequential" },
                            cfg.name,
                            if inner.is_some() { " (1 inside)" } else { "" }
                        ),
                    });
                }
            }
        }
    };
    let f = |s: Shape| Arc::new(Cfg::grid(s.plain()).flat());
    let r = |s: Shape| Arc::new(Cfg::grid(s.plain()));
    let find = |v: Vec<Shape>, name: &str| f(v.into_iter().find(|s| s.name == name).unwrap_or_else(|| panic!("no shape {name}")));
    let two = |a: u8, b: u8| {
        let mut c = (*chain(Topo::Two, vec![uniform(0, 2, &[a]).plain(), uniform(1, 2, &[b]).plain()])).clone();
        c.flat = true;
        Arc::new(c)
    };
    // The smallest ones, deeply.
    add(r(uniform(0, 2, &[D])), 1, &[], [6, 3], true);
    add(f(uniform(0, 2, &[D, N])), 1, &[], [4, 2], true);
    add(r(uniform(0, 2, &[D, N])), 1, &[], [2, 1], true);
    add(f(uniform(0, 2, &[E, D])), 1, &[], [3, 1], true);
    add(two(D, E), 1, &[], [3, 1], true);
    // Three parties.
    add(r(uniform(0, 3, &[D, D])), 2, &[], [1, 1], true);
    add(f(uniform(0, 3, &[E])), 1, &[], [2, 1], true);
    add(f(uniform(0, 3, &[E, D])), 1, &[], [2, if t { 1 } else { 0 }], false);
    // More messages than fit into the channels.
    add(r(uniform(0, 4, &[D])), 1, &[], [2, 1], false);
    add(r(uniform(0, 4, &[D])), 1, &[Drop(2, 0)], [1, 1], true);
    add(r(uniform(0, 4, &[D, N])), 1, &[Atk(2, 0, crate::attacks::Atk::TagProv(D))], [1, 1], false);
    // Rounds without messages, paths through the round graph.
    add(f(special(2).into_iter().find(|s| s.name == "n2 silent middle").unwrap()), 1, &[], [3, 1], true);
    add(find(special(3), "n3 silent end"), 1, &[], [2, 1], true);
    add(find(special(3), "n3 silent middle between echo rounds"), 2, &[], [1, 1], false);
    add(find(special(3), "n3 leader EN-EN"), 1, &[], [2, 1], true);
    add(find(special(3), "n3 leader EN-EN"), 2, &[], [2, 1], true);
    add(find(branching(2), "n2 second branch D-N-D"), 1, &[], [2, 1], true);
    add(find(special(3), "n3 a subset exchanges N-E-D"), 1, &[], [2, 1], false);
    // Repeated and bad messages.
    {
        use crate::attacks::Atk as A;
        add(f(uniform(0, 2, &[D, N])), 1, &[Repeat(2, 0), Repeat(2, 1)], [2, 1], true);
        for x in [A::TagProv(D), A::TagUnprov(D), A::Undecodable(N), A::SigSwap(D), A::Alt] {
            add(f(uniform(0, 3, &[D | N])), 1, &[Atk(2, 0, x)], [2, 1], true);
        }
        add(f(uniform(0, 3, &[D | N])), 1, &[Atk(2, 0, A::TagProv(D)), Atk(3, 0, A::TagUnprov(N)), Repeat(3, 0)], [1, 1], true);
        for x in [A::PackAlt, A::PackMissing, A::PackBrokenSig] {
            add(f(uniform(0, 3, &[E])), 1, &[Atk(2, 1, x), Drop(2, 1)], [2, 1], true);
        }
        add(f(uniform(0, 3, &[E, D])), 1, &[Atk(2, 0, A::TagProv(E))], [1, 1], false);
        add(two(N, D), 1, &[Atk(2, 1, A::TagUnprov(D))], [2, 1], true);
        // Messages that never come.
        add(f(uniform(0, 3, &[D])), 1, &[Drop(2, 0)], [2, 1], true);
        add(f(uniform(0, 3, &[E])), 1, &[Drop(3, 1)], [2, 1], true);
        add(f(uniform(0, 2, &[D, N])), 1, &[Drop(2, 1)], [3, 1], true);
        add(f(uniform(0, 3, &[D])), 1, &[Drop(2, 0), Atk(2, 0, A::TagProv(D)), Drop(3, 0)], [2, 1], true);
    }
    // More peers than the internal channels of the runner hold.
    let n = 104;
    let all = ids(n);
    let many = uniform(0, n, &[D]).with_comm(1, edges(&all, |a, b| a == 1 || (a == 2 && b == 1))).named("one sends to 103");
    add(r(many), 1, &[], [0, 0], false);
    let many = uniform(0, n, &[N, D]).with_comm(1, edges(&all, |a, b| a == 1 && b == 2)).with_comm(2, edges(&all, |a, b| b == 1 || (a == 1 && b == 2)));
    add(r(many.named("103 send to one")), 1, &[], [0, 0], false);
    jobs
}

fn asyn_check(ctx: &Ctx) -> (Vec<&'static str>, &'static str) {
    asyn::run(ctx, &asyn_jobs(ctx));
    (
        vec![
            "every operation on a channel, join handle, token or select is a scheduling point, everything between two of them is atomic",
            "what the node sends is consumed; the channel of incoming messages stays open",
            "the channels, tasks and tokens of tokio behave as their stand-ins under the explorer do",
        ],
        "every schedule with at most the stated number of deviations from the default one, for every order of arrival",
    )
}

/// Everything, for development.
fn all(ctx: &Ctx) -> (Vec<&'static str>, &'static str) {
    open_check(ctx)
}

fn sys_jobs(ctx: &Ctx) -> Vec<SysJob> {
    let t = ctx.thorough;
    let mut jobs = Vec::new();
    let sync = ctx.property == "C20";
    let max_runs = if t { 1_000_000 } else { 60_000 };
    const ANY: usize = 1_000_000;
    let mut add = |cfg: &Arc<Cfg>, bounds: [usize; 2], reversed: bool| {
        if !adjacent(cfg) {
            return;
        }
        let runners = if sync { vec![(Runner::Sync, bounds[0])] } else { vec![(Runner::Async, bounds[1]), (Runner::Par, if bounds[1] == 3 { 2 } else { bounds[1].min(1) })] };
        for (runner, bound) in runners {
            if bound < ANY / 2 || sync {
                jobs.push(SysJob { cfg: cfg.clone(), runner, bound: bound + t as usize, max_runs, reversed });
            }
        }
    };
    // One party.
    for c in 0..8u8 {
        add(&grid(uniform(0, 1, &[c]).plain()), [ANY, 3], false);
        add(&grid(uniform(0, 1, &[c, 0, c]).plain()), [ANY, 3], false);
    }
    for x in branching(1) {
        add(&grid(x.plain()), [ANY, 2], false);
    }
    // Two parties.
    for a in 0..8u8 {
        add(&grid(uniform(0, 2, &[a])), [ANY, if a & E == 0 { 3 } else { 2 }], false);
        add(&grid(uniform(0, 2, &[a])), [ANY, 1], true);
        for b in 0..8u8 {
            add(&grid(uniform(0, 2, &[a, b])), [ANY, 2], (a + b) % 2 == 1);
        }
    }
    add(&grid(uniform(0, 2, &[D, E, N])), [ANY, 1], false);
    add(&grid(uniform(0, 2, &[E, 0, D])), [ANY, 1], false);
    // Three and four parties.
    for a in 0..8u8 {
        add(&grid(uniform(0, 3, &[a]).plain()), [ANY, if a & E == 0 { 2 } else { 1 }], a % 2 == 0);
    }
    for (a, b) in [(D, N), (E, D), (N | D, E), (0, D), (D, 0)] {
        add(&grid(uniform(0, 3, &[a, b]).plain()), [if a == 0 || b == 0 { ANY } else { 5 }, 1], false);
    }
    add(&grid(uniform(0, 4, &[D])), [5, 1], false);
    add(&grid(uniform(0, 4, &[E, D])), [3, 1], false);
    for n in [2, 3] {
        for x in special(n) {
            add(&grid(x.plain()), [if n == 2 { ANY } else { 4 }, if n == 2 { 2 } else { 1 }], false);
        }
        for x in branching(n).into_iter().chain(forks(n)) {
            add(&grid(x.plain()), [if n == 2 { ANY } else { 4 }, if n == 2 { 2 } else { 1 }], false);
        }
    }
    // Chains.
    for n in [1, 2, 3] {
        let b = [if n < 3 { ANY } else { 4 }, 1];
        for (x, y) in [(D, N), (E, D), (N, E), (0, D), (D, 0), (E, E)] {
            add(&chain(Topo::Two, vec![uniform(0, n, &[x]), uniform(1, n, &[y])]), b, false);
            add(&chain(Topo::Two, vec![uniform(0, n, &[x, y]), uniform(1, n, &[y])]), [b[0].min(4), b[1]], false);
        }
        for topo in [Topo::Left, Topo::Right] {
            add(&chain(topo, vec![uniform(0, n, &[D]), uniform(1, n, &[E]), uniform(2, n, &[N])]), [b[0].min(4), b[1]], false);
            add(&chain(topo, vec![uniform(0, n, &[E]), uniform(1, n, &[0]), uniform(2, n, &[D])]), [b[0].min(4), b[1]], false);
        }
    }
    for n in [1, 2] {
        add(&deep(n, [D, E, 0, N, D, E]), [3, 1], false);
        for f in [spread, jumbled] {
            add(&grid(uniform(0, n, &[E, N, D]).renumbered(f)), [ANY, 1], false);
            add(&chain(Topo::Two, vec![uniform(0, n, &[D]).renumbered(f), uniform(1, n, &[E]).renumbered(f)]), [ANY, 1], false);
        }
    }
    add(&Arc::new(Cfg::grid(uniform(0, 2, &[E, D])).bin()), [ANY, 1], false);
    // Parties that offend.
    for n in [2u8, 3] {
        let b = if n == 2 { [ANY, 2] } else { [5, 1] };
        for tag in [TAG_UNPROVABLE, TAG_PROVABLE] {
            for k in [D, E, N] {
                add(&grid(uniform(0, n, &[D | E | N]).plain().with_mis(n, 1, k, tag)), b, false);
                add(&grid(uniform(0, n, &[D | N]).plain().with_mis(1, 1, k, tag)), b, true);
                add(&grid(uniform(0, n, &[D | N, k]).plain().with_mis(1, 2, k, tag)), [3, 1], false);
                add(&grid(uniform(0, n, &[D | N, k]).plain().with_mis(1, 1, N, tag)), [3, 1], false);
            }
            if n == 3 {
                add(&grid(uniform(0, n, &[D]).plain().with_mis(1, 1, D, tag).with_mis(2, 1, D, tag)), [ANY, 1], false);
                add(&grid(uniform(0, n, &[E]).plain().with_mis(1, 1, E, tag)), [4, 1], false);
            }
            add(&chain(Topo::Two, vec![uniform(0, n, &[D]).plain(), uniform(1, n, &[N]).plain().with_mis(1, 1, N, tag)]), [3, 1], false);
            add(&chain(Topo::Two, vec![uniform(0, n, &[E]).plain().with_mis(2, 1, E, tag), uniform(1, n, &[N]).plain()]), [3, 1], false);
        }
    }
    // A party may find the only message it waits for to be invalid as soon as it enters the round.
    for (k, combos) in [(D, [E, D]), (N, [D, N]), (E, [D, E]), (N, [7, N])] {
        for tag in [TAG_UNPROVABLE, TAG_PROVABLE] {
            for (a, b) in [(1, 2), (2, 1)] {
                let comm = edges(&ids(3), |x, y| x == a || y == a || (x, y) == (3, b));
                let comm = if k == E { partial_echo(&ids(3), &set(&[a]), &set(&[b, 3])) } else { comm };
                add(&grid(uniform(0, 3, &combos).plain().with_comm(2, comm).with_mis(a, 2, k, tag)), [6, 1], false);
            }
        }
    }
    // More parties than there is space in the channels, in one schedule.
    for n in [110u8, 250].into_iter().take(1 + t as usize) {
        for runner in if sync { vec![Runner::Sync] } else { vec![Runner::Async, Runner::Par] } {
            jobs.push(SysJob { cfg: grid(uniform(0, n, &[D]).plain()), runner, bound: 0, max_runs: 1, reversed: false });
        }
    }
    jobs
}

fn sys_check(ctx: &Ctx) -> (Vec<&'static str>, &'static str) {
    sysrun::run(ctx, &sys_jobs(ctx));
    if ctx.property == "C20" {
        (
            vec!["the random choices are made with uniform integers of the rand crate (others are taken from a fixed generator)"],
            "all random choices of the runner, in larger configurations at most the stated number of choices other than the first option",
        )
    } else {
        (
            vec![
                "every operation on a channel, join handle, token or select is a scheduling point, everything between two of them is atomic",
                "the channels, tasks and tokens of tokio behave as their stand-ins under the explorer do",
            ],
            "every schedule and choice of the dispatcher with at most the stated number of deviations from the default one",
        )
    }
}

fn ext_jobs(ctx: &Ctx) -> Vec<ExtJob> {
    use std::collections::{BTreeMap, BTreeSet};
    let mut jobs = Vec::new();
    let t = ctx.thorough;
    let reqs = |last: u8| -> Vec<Req> {
        let prev = (1..last).map(|n| (n, D | E | N)).collect();
        vec![Req::default(), Req { this: 7, prev, echos: (1..last).collect() }]
    };
    let mut add = |cfg: &Cfg, what: String, ext: BTreeMap<u8, BTreeMap<u8, ExtKind>>, mis: &[(u8, (u8, u8, u8), u8)]| {
        let (plain, wrapped) = ext::versions(cfg, &ext, mis);
        let all: Vec<Option<u8>> = if cfg.parties().len() <= 2 { vec![None] } else { cfg.parties().into_iter().map(Some).collect() };
        for focus in all {
            jobs.push(ExtJob {
                plain: plain.clone(),
                wrapped: wrapped.clone(),
                name: format!("{}, {what}{}", cfg.name, focus.map(|f| format!(", orders at {f}")).unwrap_or_default()),
                focus,
                max_states: if t { 400_000 } else { 60_000 },
            });
        }
    };
    let combos = |cfg: &Cfg| -> BTreeSet<u8> { cfg.slots().into_iter().flat_map(|s| cfg.shape(s).rounds.values().map(|r| r.combo)).collect() };
    let all_of = |cfg: &Cfg, kind: ExtKind| -> BTreeMap<u8, ExtKind> { combos(cfg).into_iter().map(|c| (c, kind)).collect() };
    let mut cfgs: Vec<Cfg> = Vec::new();
    for n in [1u8, 2, 3] {
        let lists: &[&[u8]] = if n == 1 {
            &[&[7], &[0, D]]
        } else if n == 2 {
            &[&[7, 5, 2], &[D, D, N], &[E, 0, D], &[E, E, E], &[7], &[5, 6]]
        } else {
            &[&[7, 5], &[E, D], &[D, D, N]]
        };
        for l in lists {
            cfgs.push(Cfg::grid(uniform(0, n, l).with_reqs(reqs(l.len() as u8))));
        }
    }
    cfgs.push(Cfg::grid(uniform(0, 2, &[5, 2]).with_reqs(reqs(2))).bin());
    for s in special(2) {
        if s.name.contains("silent") || s.name.contains("leader") {
            cfgs.push(Cfg::grid(s));
        }
    }
    for s in branching(2).into_iter().take(6) {
        cfgs.push(Cfg::grid(s));
    }
    cfgs.push((*chain(Topo::Two, vec![uniform(0, 2, &[E]).with_reqs(reqs(1)), uniform(1, 2, &[D, 5]).with_reqs(reqs(2))])).clone());
    cfgs.push((*chain(Topo::Two, vec![uniform(0, 2, &[D, 7]).with_reqs(reqs(2)), uniform(1, 2, &[D]).with_reqs(reqs(1))])).clone());
    cfgs.push((*chain(Topo::Left, vec![uniform(0, 2, &[D]), uniform(1, 2, &[E]), uniform(2, 2, &[N])])).clone());
    cfgs.push(Cfg::grid(uniform(0, 2, &[E, D, N]).with_reqs(reqs(3)).renumbered(jumbled)));
    cfgs.push((*chain(Topo::Two, vec![uniform(0, 2, &[D]).renumbered(spread), uniform(1, 2, &[E]).renumbered(jumbled)])).clone());
    cfgs.retain(adjacent);
    for cfg in &cfgs {
        let parties = cfg.parties();
        let n = *parties.iter().last().unwrap();
        // No effect: every subset of the parties' and rounds' extensions.
        let cs: Vec<u8> = combos(cfg).into_iter().collect();
        for bits in 0..1u32 << cs.len() {
            for kind in [ExtKind::Noop, ExtKind::All] {
                let m: BTreeMap<u8, ExtKind> = cs.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).map(|(_, c)| (*c, kind)).collect();
                if m.is_empty() && kind == ExtKind::All {
                    continue;
                }
                add(cfg, format!("{m:?} at {n}"), BTreeMap::from([(n, m.clone())]), &[]);
                if n > 1 {
                    add(cfg, format!("{m:?} at all"), parties.iter().map(|p| (*p, m.clone())).collect(), &[]);
                }
            }
        }
        // Deviations of one party in one or two places.
        let mut places: Vec<(u8, u8, u8, u8)> = Vec::new();
        for slot in cfg.slots() {
            for (num, spec) in &cfg.shape(slot).rounds {
                for k in [D, E, N] {
                    if spec.combo & k != 0 {
                        places.push((slot, *num, k, spec.combo));
                    }
                }
                places.push((slot, *num, 0, spec.combo));
            }
        }
        let tags = |k: u8| -> Vec<u8> {
            if k == 0 { vec![FIN_ALTERED, FIN_EARLY] } else { vec![9, TAG_UNPROVABLE, TAG_PROVABLE, TAG_PROVABLE + 1] }
        };
        let base: BTreeMap<u8, BTreeMap<u8, ExtKind>> = parties.iter().map(|p| (*p, all_of(cfg, ExtKind::Noop))).collect();
        for (slot, num, k, combo) in &places {
            for tag in tags(*k) {
                if n == 3 && tag == TAG_UNPROVABLE {
                    continue;
                }
                for kind in [ExtKind::All, ExtKind::Only(*k)] {
                    let mis = [(*slot, (n, *num, *k), tag)];
                    let what = format!("{kind:?} in round {num} of {slot}, part {k}: {tag}");
                    let only = BTreeMap::from([(n, BTreeMap::from([(*combo, kind)]))]);
                    add(cfg, format!("{what}, alone"), only, &mis);
                    if kind == ExtKind::All && !(n == 3 && k == &0) {
                        let mut ext = base.clone();
                        ext.get_mut(&n).unwrap().insert(*combo, kind);
                        add(cfg, format!("{what}, others wrapped"), ext, &mis);
                    }
                }
            }
        }
        if n == 2 {
            for (i, a) in places.iter().enumerate() {
                for b in &places[i + 1..] {
                    for (x, y) in [(0, 0), (0, 1), (1, 1)] {
                        let mut ext = base.clone();
                        let m = ext.get_mut(&n).unwrap();
                        m.insert(a.3, ExtKind::All);
                        m.insert(b.3, ExtKind::All);
                        let tag = |k: u8, z: usize| if k == 0 { FIN_ALTERED } else { [9, TAG_PROVABLE + 1][z] };
                        let mis = [(a.0, (n, a.1, a.2), tag(a.2, x)), (b.0, (n, b.1, b.2), tag(b.2, y))];
                        add(cfg, format!("deviations {mis:?}"), ext, &mis);
                    }
                }
            }
        }
    }
    jobs
}

fn ext_check(ctx: &Ctx) -> (Vec<&'static str>, &'static str) {
    use std::collections::BTreeMap;
    ext::run(ctx, &ext_jobs(ctx));
    // A wrapped node against everything.
    let big = if ctx.thorough { 200_000 } else { 40_000 };
    let mut jobs = Vec::new();
    let all: BTreeMap<u8, ExtKind> = (0..8).map(|c| (c, ExtKind::Noop)).collect();
    for (i, s) in [uniform(0, 2, &[E, D]), uniform(0, 2, &[D, N]), uniform(0, 3, &[D | N]), uniform(0, 3, &[E])].into_iter().enumerate() {
        for m in [BTreeMap::new(), all.clone()] {
            let mut s = s.clone().plain();
            s.ext.insert(1, m.clone());
            s.name += if m.is_empty() { ", wrapped" } else { ", wrapped with extensions" };
            let atks = if i < 2 || ctx.thorough { all_attacks() } else { few_attacks() };
            jobs.extend(open_jobs(&grid(s), 1, &[Fam::Repeat, Fam::Split, Fam::One], &atks, big));
        }
    }
    open::run(ctx, &jobs);
    (
        vec!["the harness protocol with a deviation built in is what the extension is to have the effect of"],
        "every order of deliveries, cached deliveries and finalizations, in lock-step with the plain protocol; all sequences of menu messages against a wrapped node",
    )
}

fn chain_check(ctx: &Ctx) -> (Vec<&'static str>, &'static str) {
    let t = ctx.thorough;
    let u = |slot: u8, n: u8, c: &[u8]| uniform(slot, n, c).plain().with_reqs(reqs());
    let two = |n: u8, a: &[u8], b: &[u8]| chain(Topo::Two, vec![u(0, n, a), u(1, n, b)]);
    let three = |topo: Topo, n: u8, c: [&[u8]; 3]| chain(topo, c.iter().enumerate().map(|(i, c)| u(i as u8, n, c)).collect());
    let bin = |c: Arc<Cfg>| {
        let mut c = (*c).clone();
        c.name += " (binary)";
        c.fmt = Fmt::Bin;
        Arc::new(c)
    };
    // Honest executions: all orders.
    let mut jobs = Vec::new();
    let mut firsts: Vec<Vec<u8>> = (0..8).map(|c| vec![c]).collect();
    firsts.extend([vec![D, N], vec![E, D], vec![D, E], vec![0, D], vec![D, 0]]);
    for a in &firsts {
        for b in &firsts {
            if a.len() + b.len() < 4 || t {
                jobs.push(Job::Full(two(2, a, b), 1_000_000));
            }
        }
    }
    for (a, b) in [(D, N), (E, D), (N, E), (E, E), (7, 7)] {
        for f in 1..=3 {
            jobs.push(Job::Focus(two(3, &[a], &[b]), f, 200_000));
            jobs.push(Job::Focus(two(3, &[a, b], &[b, a]), f, 200_000));
        }
        jobs.push(Job::Full(bin(two(2, &[a], &[b])), 1_000_000));
    }
    for topo in [Topo::Left, Topo::Right] {
        for c in [[D, N, D], [E, D, N], [D, E, E], [0, D, 0], [N, 0, E], [E, E, E], [7, 5, 6]] {
            jobs.push(Job::Full(three(topo, 2, [&c[0..1], &c[1..2], &c[2..3]]), 1_000_000));
            jobs.push(Job::Focus(three(topo, 3, [&c[0..1], &c[1..2], &c[2..3]]), 2, 200_000));
        }
        jobs.push(Job::Full(three(topo, 2, [&[D, E], &[N], &[E, D]]), 1_000_000));
    }
    for s in branching(2).into_iter().chain(special(2)) {
        let mut s2 = s.clone();
        s2.slot = 1;
        jobs.push(Job::Full(chain(Topo::Two, vec![s.clone(), uniform(1, 2, &[E])]), 1_000_000));
        jobs.push(Job::Full(chain(Topo::Two, vec![uniform(0, 2, &[D]), s2]), 1_000_000));
    }
    for n in [3, 4] {
        for s in forks(n).into_iter().chain(branching(n)) {
            let mut s2 = s.clone();
            s2.slot = 1;
            for c in [chain(Topo::Two, vec![s, uniform(1, n, &[N])]), chain(Topo::Two, vec![uniform(0, n, &[D]), s2])] {
                jobs.push(Job::Focus(c.clone(), 1, 200_000));
                jobs.push(Job::Focus(c, n, 200_000));
            }
        }
    }
    for (a, b) in [(&[D, E][..], &[N][..]), (&[E], &[D, N]), (&[7], &[7])] {
        for (f, g) in [(spread as fn(u8) -> u8, jumbled as fn(u8) -> u8), (jumbled, spread), (jumbled, jumbled)] {
            jobs.push(Job::Full(chain(Topo::Two, vec![u(0, 2, a).renumbered(f), u(1, 2, b).renumbered(g)]), 1_000_000));
        }
    }
    for c in [[D, N, D, N, D, N], [E, E, E, E, E, E], [D, E, N, D, E, N], [0, D, 0, E, 0, N], [7, 5, 6, 3, 7, 1]] {
        jobs.push(Job::Full(deep(2, c), 1_000_000));
        jobs.push(Job::Full(bin(deep(2, c)), 1_000_000));
        jobs.push(Job::Focus(deep(3, c), 2, 200_000));
    }
    jobs.retain(|j| match j {
        Job::Full(c, _) | Job::Focus(c, _, _) => adjacent(c),
    });
    run_jobs(ctx, &jobs, |_| true);
    // The ends of chains with and without offences, against those of the parts.
    let mut cfgs = Vec::new();
    for n in [2u8, 3] {
        let lists: &[(&[u8], &[u8])] = if n == 2 {
            &[(&[7], &[7]), (&[D, E], &[N]), (&[N], &[E, D]), (&[0, D], &[0])]
        } else {
            &[(&[D], &[N]), (&[E], &[D]), (&[N], &[E])]
        };
        for (a, b) in lists {
            let c = two(n, a, b);
            cfgs.push(c.clone());
            for slot in 0..2u8 {
                for (num, spec) in c.shape(slot).rounds.clone() {
                    for k in [D, E, N] {
                        for tag in [TAG_UNPROVABLE, TAG_PROVABLE, TAG_PROVABLE + 1, TAG_PROVABLE + 2] {
                            if spec.combo & k != 0 {
                                let mut x = (*c).clone();
                                let s = (**c.shape(slot)).clone().with_mis(n, num, k, tag);
                                x.shapes[slot as usize] = Some(Arc::new(s));
                                x.name = format!("{}, {n} offends in part {} of round {num} of {slot} ({tag})", c.name, combo_name(k));
                                cfgs.push(Arc::new(x));
                            }
                        }
                    }
                }
            }
        }
    }
    for topo in [Topo::Left, Topo::Right] {
        let c = three(topo, 2, [&[E], &[D], &[N]]);
        cfgs.push(c.clone());
        for (slot, k) in [(0u8, E), (1, D), (2, N)] {
            for tag in [TAG_UNPROVABLE, TAG_PROVABLE] {
                let mut x = (*c).clone();
                x.shapes[slot as usize] = Some(Arc::new((**c.shape(slot)).clone().with_mis(1, 1, k, tag)));
                x.name = format!("{}, 1 offends in part {} of {slot} ({tag})", c.name, combo_name(k));
                cfgs.push(Arc::new(x));
            }
        }
    }
    let c = deep(2, [E, D, N, D, E, N]);
    cfgs.push(c.clone());
    for (slot, k) in [E, D, N, D, E, N].into_iter().enumerate() {
        let num = c.shape(slot as u8).entry;
        for tag in [TAG_UNPROVABLE, TAG_PROVABLE] {
            let mut x = (*c).clone();
            x.shapes[slot] = Some(Arc::new((**c.shape(slot as u8)).clone().with_mis(1, num, k, tag)));
            x.name = format!("{}, 1 offends in part {} of {slot} ({tag})", c.name, combo_name(k));
            cfgs.push(Arc::new(x));
        }
    }
    cfgs.retain(|c| adjacent(c));
    sysrun::run_chains(ctx, &cfgs);
    // One node against everything.
    let big = if t { 200_000 } else { 40_000 };
    let every = all_attacks();
    let mut jobs = Vec::new();
    let fams = [Fam::Repeat, Fam::Split, Fam::One];
    jobs.extend(open_jobs(&two(2, &[D], &[E]), 1, &ALL_FAMS, &every, big));
    jobs.extend(open_jobs(&two(2, &[E], &[D]), 1, &fams, &every, big));
    jobs.extend(open_jobs(&two(2, &[N, D], &[D]), 2, &fams, if t { &every[..] } else { &[Atk::Alt, Atk::TagProv(D), Atk::UnknownRound, Atk::OtherRoundPart(D), Atk::Relabel][..] }, big));
    jobs.extend(open_jobs(&bin(two(2, &[D], &[N])), 1, &fams, &few_attacks(), big));
    for topo in [Topo::Left, Topo::Right] {
        let atks = if t { every.clone() } else { [few_attacks(), vec![Atk::Relabel, Atk::UnknownRound, Atk::OtherRoundPart(D), Atk::OtherRoundPart(E), Atk::OtherRoundPart(N)]].concat() };
        jobs.extend(open_jobs(&three(topo, 2, [&[D], &[E], &[N]]), 1, &fams, &atks, big));
    }
    jobs.extend(open_jobs(&chain(Topo::Two, vec![u(0, 2, &[E]).renumbered(jumbled), u(1, 2, &[N]).renumbered(spread)]), 1, &fams, &few_attacks(), big));
    jobs.extend(open_jobs(&deep(2, [D, N, E, D, N, D]), 1, &[Fam::Repeat, Fam::One], if t { &every[..] } else { &[Atk::Alt, Atk::TagProv(D), Atk::TagProv(N), Atk::TagProv(E), Atk::UnknownRound][..] }, big));
    if t {
        jobs.extend(open_jobs(&two(3, &[E], &[N]), 1, &fams, &few_attacks(), big));
    }
    open::run(ctx, &jobs);
    // Evidence.
    let signed: Vec<Atk> = all_attacks();
    let tags = |is: std::ops::Range<u8>| is.flat_map(|i| [D, E, N].map(|k| Atk::TagReq(k, i))).collect::<Vec<_>>();
    let mut jobs = Vec::new();
    let mut add = |cfg: &Arc<Cfg>, atks: Vec<Atk>| {
        let mut a = Arena::new(cfg, 2).unwrap();
        a.alt.remove(&1);
        jobs.push(EvidJob { arena: a, honest: 1, history: None, atks, pairs: false, recombine: t, malformed_only: false, name: format!("{}: evidence", cfg.name) });
    };
    add(&two(3, &[E | N, D], &[E | N, D]), signed.iter().copied().chain(tags(0..if t { 5 } else { 3 })).collect());
    for topo in [Topo::Left, Topo::Right] {
        add(&three(topo, 3, [&[E, N], &[E, N], &[E, N]]), tags(0..3));
    }
    add(&deep(3, [N, E, D, E, N, E]), tags(0..3));
    evid::run(ctx, &jobs);
    (
        vec![
            "the reference model of the session rules, in which a chain is the sequence of its parts",
            "signatures are ideal: only the owner of a key makes valid ones",
        ],
        "every order of deliveries for honest parties; every end of chains with offending parties against the ends of the parts; every sequence of menu messages at one node; every evidence assembled from the signed parts",
    )
}
