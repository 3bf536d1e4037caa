//! The harness protocol: a configurable multi-round protocol whose result is a complete record of everything each
//! round was finalized with.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::sync::{Arc, Mutex};

use manul::combinators::chain::{ChainedJoin, ChainedMarker, ChainedProtocol, ChainedSplit};
use manul::dev::{ExtendableEntryPoint, RoundExtension};
use manul::protocol::*;
use rand_core::CryptoRngCore;
use serde::{Deserialize, Serialize};

use crate::sp::{hash128, Id};

pub const D: u8 = 1;
pub const E: u8 = 2;
pub const N: u8 = 4;
pub const BCAST: u8 = 255;
/// The number of protocols that can be chained.
pub const SLOTS: usize = 6;
/// Tags from here on make the receiver report an offence.
pub const TAG_UNPROVABLE: u8 = 100;
pub const TAG_PROVABLE: u8 = 110;

/// The content of every message part.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
pub struct Val {
    pub slot: u8,
    pub round: u8,
    pub kind: u8,
    pub from: u8,
    pub to: u8,
    pub tag: u8,
    pub fresh: u64,
    pub acc: u64,
    pub pad: Vec<u8>,
}

/// What was received from one party in one round.
#[derive(Debug, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Rcv {
    pub d: Option<Val>,
    pub e: Option<Val>,
    pub n: Option<Val>,
}

impl Rcv {
    pub fn part(&self, kind: u8) -> Option<&Val> {
        match kind {
            D => self.d.as_ref(),
            E => self.e.as_ref(),
            _ => self.n.as_ref(),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Art {
    pub to: u8,
    pub round: u8,
    pub fresh: u64,
}

/// Everything a round was finalized with.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct RoundRec {
    pub slot: u8,
    pub num: u8,
    pub own_e: Option<Val>,
    pub own_n: Option<Val>,
    pub recv: BTreeMap<u8, Rcv>,
    pub arts: BTreeMap<u8, Option<Art>>,
    pub fin_fresh: u64,
}

#[derive(Debug, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct RunLog(pub Vec<RoundRec>);

impl RunLog {
    pub fn acc(&self) -> u64 {
        // `fin_fresh` is excluded: all nodes' records can be compared modulo randomness.
        hash128(format!("{:?}", self.0).as_bytes()) as u64
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Part {
    Default,
    Send,
    Receive(BTreeSet<u8>),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Comm {
    pub dests: BTreeSet<u8>,
    pub expects: BTreeSet<u8>,
    pub echo: Part,
}

#[derive(Debug, Clone)]
pub enum Ti {
    Linear,
    Terminating,
    LinearWith { children: Vec<u8>, siblings: Vec<u8> },
    Custom { parents: Vec<u8>, siblings: Vec<u8>, children: Vec<u8>, result: bool },
}

#[derive(Debug, Clone)]
pub enum Nx {
    Result,
    Round(u8),
    PerNode(BTreeMap<u8, Nx>),
}

#[derive(Debug, Clone)]
pub struct RSpec {
    pub combo: u8,
    pub ti: Ti,
    pub comm: Option<BTreeMap<u8, Comm>>,
    pub next: Nx,
}

/// An extension of a round.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ExtKind {
    /// Overrides nothing.
    Noop,
    /// Overrides everything.
    All,
    /// Overrides one method (0: finalization).
    Only(u8),
}

/// What evidence for an offence needs.
#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Req {
    pub this: u8,
    pub prev: BTreeMap<u8, u8>,
    pub echos: BTreeSet<u8>,
}

#[derive(Clone)]
pub struct Shape {
    pub name: String,
    pub slot: u8,
    pub parties: BTreeSet<u8>,
    pub rounds: BTreeMap<u8, RSpec>,
    pub reqs: Vec<Req>,
    pub magic: u64,
    /// (party, round, part) -> tag: parties that send offending messages. For part 0, how the finalization deviates.
    pub mis: BTreeMap<(u8, u8, u8), u8>,
    /// Parties whose entry point is wrapped: round types and the extension on them.
    pub ext: BTreeMap<u8, BTreeMap<u8, ExtKind>>,
    /// As `mis`, but as what the overriding extensions do.
    pub ext_mis: BTreeMap<(u8, u8, u8), u8>,
    /// The contents of messages do not depend on what was received before.
    pub plain: bool,
    /// The first round.
    pub entry: u8,
    /// The position of rounds whose numbers are not their positions.
    pub ranks: BTreeMap<u8, u8>,
    /// How many more bytes each message part has.
    pub pad: usize,
}

impl fmt::Debug for Shape {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Shape({})", self.name)
    }
}

impl Shape {
    pub fn comm(&self, round: u8, id: u8) -> Comm {
        let spec = &self.rounds[&round];
        match &spec.comm {
            Some(m) => m[&id].clone(),
            None => {
                let mut others = self.parties.clone();
                others.remove(&id);
                Comm { dests: others.clone(), expects: others, echo: Part::Default }
            }
        }
    }
    pub fn tinfo(&self, round: u8) -> TransitionInfo {
        let ids = |v: &Vec<u8>| v.iter().map(|n| RoundId::new(*n)).collect::<BTreeSet<_>>();
        match &self.rounds[&round].ti {
            Ti::Linear => TransitionInfo::new_linear(round),
            Ti::Terminating => TransitionInfo::new_linear_terminating(round),
            Ti::LinearWith { children, siblings } => TransitionInfo::new_linear(round)
                .with_children(children.iter().copied().collect())
                .with_siblings(siblings.iter().copied().collect()),
            Ti::Custom { parents, siblings, children, result } => TransitionInfo {
                id: RoundId::new(round),
                parents: ids(parents),
                siblings: ids(siblings),
                children: ids(children),
                may_produce_result: *result,
            },
        }
    }
    pub fn next(&self, round: u8, id: u8) -> Option<u8> {
        let mut nx = &self.rounds[&round].next;
        loop {
            match nx {
                Nx::Result => return None,
                Nx::Round(r) => return Some(*r),
                Nx::PerNode(m) => nx = &m[&id],
            }
        }
    }
    pub fn rank(&self, num: u8) -> u8 {
        self.ranks.get(&num).copied().unwrap_or(num)
    }
    /// The same protocol with other numbers of rounds.
    pub fn renumbered(&self, f: impl Fn(u8) -> u8) -> Shape {
        fn nx(n: &Nx, f: &impl Fn(u8) -> u8) -> Nx {
            match n {
                Nx::Result => Nx::Result,
                Nx::Round(r) => Nx::Round(f(*r)),
                Nx::PerNode(m) => Nx::PerNode(m.iter().map(|(k, v)| (*k, nx(v, f))).collect()),
            }
        }
        let mut s = self.clone();
        let nums = |ids: &BTreeSet<RoundId>| -> Vec<u8> {
            self.rounds.keys().filter(|n| ids.contains(&RoundId::new(**n))).map(|n| f(*n)).collect()
        };
        s.rounds = self
            .rounds
            .iter()
            .map(|(n, spec)| {
                let t = self.tinfo(*n);
                let ti = Ti::Custom {
                    parents: nums(&t.parents),
                    siblings: nums(&t.siblings),
                    children: nums(&t.children),
                    result: t.may_produce_result,
                };
                (f(*n), RSpec { combo: spec.combo, ti, comm: spec.comm.clone(), next: nx(&spec.next, &f) })
            })
            .collect();
        assert_eq!(s.rounds.len(), self.rounds.len());
        for r in &mut s.reqs {
            r.prev = r.prev.iter().map(|(n, b)| (f(*n), *b)).collect();
            r.echos = r.echos.iter().map(|n| f(*n)).collect();
        }
        s.mis = self.mis.iter().map(|((p, n, k), t)| ((*p, f(*n), *k), *t)).collect();
        s.ext_mis = self.ext_mis.iter().map(|((p, n, k), t)| ((*p, f(*n), *k), *t)).collect();
        s.entry = f(self.entry);
        s.ranks = self.rounds.keys().map(|n| (f(*n), self.rank(*n))).collect();
        s.name += &format!(" as rounds {:?}", self.rounds.keys().map(|n| f(*n)).collect::<Vec<_>>());
        s
    }
    pub fn padded(mut self, n: usize) -> Shape {
        self.pad = n;
        self.name += &format!(" with {n} more bytes");
        self
    }
    /// The part of the request that exists for an offence of `from` in this round.
    pub fn possible(&self, round: u8, me: u8, from: u8, mut req: Req) -> Req {
        let sent = |n: u8| self.rank(n) < self.rank(round) && self.rounds.contains_key(&n) && self.comm(n, me).expects.contains(&from);
        req.prev.retain(|n, bits| {
            *bits &= self.rounds.get(n).map_or(0, |r| r.combo);
            *bits != 0 && sent(*n)
        });
        req.echos.retain(|n| {
            sent(*n) && self.echo_confirms(*n, from).is_some() && self.echo_confirms(*n, me).is_some()
        });
        req
    }
    /// The parties whose echo broadcasts `id` is to confirm in the echo round after `round` (its own excluded), if it
    /// takes part in an echo round.
    pub fn echo_confirms(&self, round: u8, id: u8) -> Option<BTreeSet<u8>> {
        if self.rounds[&round].combo & E == 0 {
            return None;
        }
        let c = self.comm(round, id);
        match c.echo {
            Part::Default => (!c.dests.is_empty()).then_some(c.expects),
            Part::Send => None,
            Part::Receive(_) => Some(c.expects),
        }
    }
}

thread_local! {
    static SHAPES: RefCell<[Option<Arc<Shape>>; SLOTS]> = const { RefCell::new([const { None }; SLOTS]) };
}

/// Declares the shapes that `Protocol::round_info` refers to in this thread.
pub fn set_shapes(shapes: &[Option<Arc<Shape>>; SLOTS]) {
    SHAPES.with(|s| *s.borrow_mut() = shapes.clone());
}

fn entry_of(slot: u8) -> RoundId {
    SHAPES.with(|s| RoundId::new(s.borrow()[slot as usize].as_ref().expect("shapes are set").entry))
}

/// All numbers of rounds worth asking for.
fn rounds_to_ask(slot: u8) -> BTreeSet<u8> {
    SHAPES.with(|s| s.borrow()[slot as usize].as_ref().expect("shapes are set").rounds.keys().copied().chain(1..=12).collect())
}

/// Records of the calls made to the protocol.
#[derive(Default)]
pub struct Obs {
    /// (slot, round, sender, contents) for each message handed to a round.
    pub calls: Mutex<Vec<(u8, u8, u8, Rcv)>>,
    /// Every message part the rounds created.
    pub made: Mutex<Vec<Val>>,
}
impl fmt::Debug for Obs {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Obs")
    }
}

#[derive(Debug)]
pub struct R<const C: u8, const SLOT: u8> {
    pub shape: Arc<Shape>,
    pub id: u8,
    pub num: u8,
    pub log: RunLog,
    pub sr: Vec<u8>,
    pub own_e: Mutex<Option<Val>>,
    pub own_n: Mutex<Option<Val>>,
    pub obs: Arc<Obs>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct GErr<const C: u8, const SLOT: u8> {
    pub carrier: u8,
    pub req: Req,
    pub seen_this: Vec<(u8, Val)>,
    pub seen_prev: Vec<(u8, u8, Val)>,
    pub seen_echos: Vec<(u8, Vec<(u8, Val)>)>,
    pub seen_sr: Vec<u8>,
    pub seen_magic: u64,
    pub seen_round: u8,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct Grid<const SLOT: u8>;

/// Public data for evidence verification.
#[derive(Debug, Clone)]
pub struct Shared {
    pub magic: u64,
}

macro_rules! by_combo {
    ($combo:expr, $m:ident $(, $arg:tt)*) => {
        match $combo {
            0 => $m!(0 $(, $arg)*), 1 => $m!(1 $(, $arg)*), 2 => $m!(2 $(, $arg)*), 3 => $m!(3 $(, $arg)*),
            4 => $m!(4 $(, $arg)*), 5 => $m!(5 $(, $arg)*), 6 => $m!(6 $(, $arg)*), 7 => $m!(7 $(, $arg)*),
            _ => unreachable!(),
        }
    };
}

impl<const SLOT: u8> Protocol<Id> for Grid<SLOT> {
    type Result = RunLog;
    type SharedData = Shared;
    fn round_info(round_id: &RoundId) -> Option<RoundInfo<Id, Self>> {
        let shape = SHAPES.with(|s| s.borrow()[SLOT as usize].clone()).expect("shapes are set");
        for (num, spec) in &shape.rounds {
            if round_id == num {
                macro_rules! ri {
                    ($c:literal) => {
                        Some(RoundInfo::new::<R<$c, SLOT>>())
                    };
                }
                return by_combo!(spec.combo, ri);
            }
        }
        None
    }
}

#[allow(clippy::too_many_arguments)]
pub fn make_boxed<const SLOT: u8>(
    shape: &Arc<Shape>,
    id: u8,
    num: u8,
    log: RunLog,
    sr: Vec<u8>,
    obs: &Arc<Obs>,
) -> BoxedRound<Id, Grid<SLOT>> {
    macro_rules! mk {
        ($c:literal) => {
            BoxedRound::new(R::<$c, SLOT> {
                shape: shape.clone(),
                id,
                num,
                log,
                sr,
                own_e: Mutex::new(None),
                own_n: Mutex::new(None),
                obs: obs.clone(),
            })
        };
    }
    by_combo!(shape.rounds[&num].combo, mk)
}

fn ids(s: &BTreeSet<u8>) -> BTreeSet<Id> {
    s.iter().map(|x| Id(*x)).collect()
}

impl<const C: u8, const SLOT: u8> R<C, SLOT> {
    fn val(&self, kind: u8, to: u8, rng: &mut impl CryptoRngCore) -> Val {
        let val = Val {
            slot: SLOT,
            round: self.num,
            kind,
            from: self.id,
            to,
            tag: self.shape.mis.get(&(self.id, self.num, kind)).copied().unwrap_or(0),
            fresh: rng.next_u64(),
            acc: if self.shape.plain { 0 } else { self.log.acc() },
            pad: vec![0xa5; self.shape.pad],
        };
        self.obs.made.lock().unwrap().push(val.clone());
        val
    }

    fn comm_info(&self) -> CommunicationInfo<Id> {
        let c = self.shape.comm(self.num, self.id);
        CommunicationInfo {
            message_destinations: ids(&c.dests),
            expecting_messages_from: ids(&c.expects),
            echo_round_participation: match &c.echo {
                Part::Default => EchoRoundParticipation::Default,
                Part::Send => EchoRoundParticipation::Send,
                Part::Receive(t) => EchoRoundParticipation::Receive { echo_targets: ids(t) },
            },
        }
    }

    /// `Ok(None)` - fine, `Ok(Some(_))` - a provable offence, `Err` - an unprovable one.
    fn receive(&self, from: &Id, rcv: &Rcv) -> Result<Option<GErr<C, SLOT>>, RemoteError> {
        self.obs.calls.lock().unwrap().push((SLOT, self.num, from.0, rcv.clone()));
        for kind in [D, E, N] {
            if let Some(v) = rcv.part(kind) {
                if v.tag >= TAG_PROVABLE {
                    let req = self.shape.reqs.get((v.tag - TAG_PROVABLE) as usize).cloned().unwrap_or_default();
                    return Ok(Some(self.error(from.0, kind, req, rcv)));
                }
                let to = if kind == D { self.id } else { BCAST };
                if v.tag == TAG_UNPROVABLE
                    || v.slot != SLOT
                    || v.round != self.num
                    || v.from != from.0
                    || v.kind != kind
                    || v.to != to
                {
                    return Err(RemoteError::new("Unexpected message contents"));
                }
            }
        }
        Ok(None)
    }

    fn error(&self, from: u8, carrier: u8, req: Req, rcv: &Rcv) -> GErr<C, SLOT> {
        let mut req = req;
        req.this |= carrier;
        req.this &= C;
        let mut req = self.shape.possible(self.num, self.id, from, req);
        let mut seen_this = Vec::new();
        for k in [D, E, N] {
            if req.this & k != 0 {
                seen_this.push((k, rcv.part(k).expect("declared part").clone()));
            }
        }
        let rec = |num: u8| self.log.0.iter().rev().find(|r| r.slot == SLOT && r.num == num).expect("earlier round");
        let mut seen_prev = Vec::new();
        for (num, bits) in &mut req.prev {
            for k in [D, E, N] {
                if *bits & k != 0 {
                    seen_prev.push((*num, k, rec(*num).recv[&from].part(k).expect("declared part").clone()));
                }
            }
        }
        let mut seen_echos = Vec::new();
        for num in &req.echos {
            let confirms = self.shape.echo_confirms(*num, from).expect("accused party takes part in the echo round");
            let v = confirms
                .iter()
                .map(|p| {
                    let e = if *p == self.id { rec(*num).own_e.clone() } else { rec(*num).recv[p].e.clone() };
                    (*p, e.expect("echo broadcast"))
                })
                .collect();
            seen_echos.push((*num, v));
        }
        GErr {
            carrier,
            req,
            seen_this,
            seen_prev,
            seen_echos,
            seen_sr: self.sr.clone(),
            seen_magic: self.shape.magic,
            seen_round: self.num,
        }
    }

    fn fin(
        self,
        rng: &mut impl CryptoRngCore,
        payloads: BTreeMap<Id, Rcv>,
        arts: BTreeMap<u8, Option<Art>>,
    ) -> FinalizeOutcome<Id, Grid<SLOT>> {
        let mut log = self.log;
        let (mut payloads, mut arts) = (payloads, arts);
        match self.shape.mis.get(&(self.id, self.num, 0)) {
            Some(&FIN_ALTERED) => alter(&mut payloads, arts.values_mut().flatten()),
            Some(&FIN_EARLY) => return FinalizeOutcome::Result(log),
            _ => {}
        }
        log.0.push(RoundRec {
            slot: SLOT,
            num: self.num,
            own_e: self.own_e.into_inner().unwrap(),
            own_n: self.own_n.into_inner().unwrap(),
            recv: payloads.into_iter().map(|(k, v)| (k.0, v)).collect(),
            arts,
            fin_fresh: rng.next_u64(),
        });
        match self.shape.next(self.num, self.id) {
            None => FinalizeOutcome::Result(log),
            Some(r) => {
                FinalizeOutcome::AnotherRound(make_boxed::<SLOT>(&self.shape, self.id, r, log, self.sr, &self.obs))
            }
        }
    }
}

pub const FIN_ALTERED: u8 = 1;
pub const FIN_EARLY: u8 = 2;
fn alter<'a>(payloads: &mut BTreeMap<Id, Rcv>, arts: impl Iterator<Item = &'a mut Art>) {
    for v in payloads.values_mut().flat_map(|r| [&mut r.d, &mut r.e, &mut r.n]).flatten() {
        v.tag = 77;
    }
    for a in arts {
        a.round = 77;
    }
}

/// Extensions of the round `R<C, SLOT>`.
#[derive(Debug, Clone)]
pub struct ExtNoop<const C: u8, const SLOT: u8>;
#[derive(Debug, Clone)]
pub struct ExtAll<const C: u8, const SLOT: u8>(Arc<Shape>);
#[derive(Debug, Clone)]
pub struct ExtD<const C: u8, const SLOT: u8>(Arc<Shape>);
#[derive(Debug, Clone)]
pub struct ExtE<const C: u8, const SLOT: u8>(Arc<Shape>);
#[derive(Debug, Clone)]
pub struct ExtN<const C: u8, const SLOT: u8>(Arc<Shape>);
#[derive(Debug, Clone)]
pub struct ExtFin<const C: u8, const SLOT: u8>(Arc<Shape>);

impl<const C: u8, const SLOT: u8> R<C, SLOT> {
    fn ext_tag(&self, shape: &Shape, kind: u8) -> Option<u8> {
        shape.ext_mis.get(&(self.id, self.num, kind)).copied()
    }
}

impl<const C: u8, const SLOT: u8> GErr<C, SLOT> {
    fn required(&self) -> RequiredMessages {
        let parts = |bits: u8| {
            let mut r = None;
            for (k, base, and) in [
                (
                    D,
                    RequiredMessageParts::direct_message as fn() -> _,
                    RequiredMessageParts::and_direct_message as fn(&_) -> _,
                ),
                (E, RequiredMessageParts::echo_broadcast, RequiredMessageParts::and_echo_broadcast),
                (N, RequiredMessageParts::normal_broadcast, RequiredMessageParts::and_normal_broadcast),
            ] {
                if bits & k != 0 {
                    r = Some(match r {
                        None => base(),
                        Some(x) => and(&x),
                    });
                }
            }
            r.expect("at least one part")
        };
        let prev = self.req.prev.iter().map(|(n, b)| (RoundId::new(*n), parts(*b))).collect::<BTreeMap<_, _>>();
        let echos = self.req.echos.iter().map(|n| RoundId::new(*n)).collect::<BTreeSet<_>>();
        RequiredMessages::new(
            parts(self.req.this),
            (!prev.is_empty()).then_some(prev),
            (!echos.is_empty()).then_some(echos),
        )
    }
}

/// What the library handed to the verifier of a protocol error.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Seen {
    pub slot: u8,
    pub round: u8,
    pub from: u8,
    pub sr: Vec<u8>,
    pub magic: u64,
    pub parts: Vec<(u8, Val)>,
    pub prev: Vec<(u8, u8, Val)>,
    pub echos: Vec<(u8, Vec<(u8, Val)>)>,
}

thread_local! {
    static LENIENT: RefCell<Option<Vec<Seen>>> = const { RefCell::new(None) };
}

/// Lets verifiers of protocol errors convict whenever the offending part has an offending tag, and record everything
/// that was handed to them.
pub fn lenient<T>(f: impl FnOnce() -> T) -> (T, Vec<Seen>) {
    LENIENT.with(|l| *l.borrow_mut() = Some(Vec::new()));
    let r = f();
    (r, LENIENT.with(|l| l.borrow_mut().take()).unwrap_or_default())
}

fn inv(s: impl Into<String>) -> EvidenceError {
    EvidenceError::InvalidEvidence(s.into())
}

/// Whether the parts of type `T` exist in the round (`NoMessage` otherwise).
macro_rules! grid_round {
    ($c:literal, $d:tt, $e:tt, $n:tt) => {
        impl<const SLOT: u8> Round<Id> for R<$c, SLOT> {
            type Protocol = Grid<SLOT>;
            type ProtocolError = GErr<$c, SLOT>;
            type DirectMessage = ty!($d);
            type EchoBroadcast = ty!($e);
            type NormalBroadcast = ty!($n);
            type Payload = Rcv;
            type Artifact = art!($d);

            fn transition_info(&self) -> TransitionInfo {
                self.shape.tinfo(self.num)
            }
            fn communication_info(&self) -> CommunicationInfo<Id> {
                self.comm_info()
            }
            mk_d!($d);
            mk_e!($e);
            mk_n!($n);
            fn receive_message(
                &self,
                from: &Id,
                message: ProtocolMessage<Id, Self>,
            ) -> Result<Rcv, ReceiveError<Id, Self>> {
                let rcv = Rcv {
                    d: opt!($d, message.direct_message),
                    e: opt!($e, message.echo_broadcast),
                    n: opt!($n, message.normal_broadcast),
                };
                match self.receive(from, &rcv) {
                    Ok(None) => Ok(rcv),
                    Ok(Some(err)) => Err(ReceiveError::Protocol(err)),
                    Err(err) => Err(ReceiveError::Unprovable(err)),
                }
            }
            fn finalize(
                self,
                rng: &mut impl CryptoRngCore,
                payloads: BTreeMap<Id, Rcv>,
                artifacts: BTreeMap<Id, Self::Artifact>,
            ) -> Result<FinalizeOutcome<Id, Grid<SLOT>>, LocalError> {
                let arts = artifacts.into_iter().map(|(k, v)| (k.0, opt!($d, v))).collect();
                Ok(self.fin(rng, payloads, arts))
            }
        }

        impl<const SLOT: u8> ProtocolError<Id> for GErr<$c, SLOT> {
            type Round = R<$c, SLOT>;
            fn description(&self) -> String {
                format!("bad tag in part {}", self.carrier)
            }
            fn required_messages(&self, _round_id: &RoundId) -> RequiredMessages {
                self.required()
            }
            fn verify_evidence(
                &self,
                round_id: &RoundId,
                from: &Id,
                shared_randomness: &[u8],
                shared_data: &Shared,
                messages: EvidenceMessages<'_, Id, Self::Round>,
            ) -> Result<(), EvidenceError> {
                if LENIENT.with(|l| l.borrow().is_some()) {
                    let mut seen = Seen {
                        slot: SLOT,
                        round: (0..=255).find(|n| round_id == &RoundId::new(*n)).unwrap_or(0),
                        from: from.0,
                        sr: shared_randomness.into(),
                        magic: shared_data.magic,
                        parts: vec![],
                        prev: vec![],
                        echos: vec![],
                    };
                    let mut complete = true;
                    for k in [D, E, N] {
                        let got: Result<Option<Val>, EvidenceError> = match k {
                            D => messages.direct_message().map(|x| opt!($d, x)),
                            E => messages.echo_broadcast().map(|x| opt!($e, x)),
                            _ => messages.normal_broadcast().map(|x| opt!($n, x)),
                        };
                        match got {
                            Ok(Some(v)) => seen.parts.push((k, v)),
                            _ => complete &= self.req.this & k == 0,
                        }
                    }
                    for num in rounds_to_ask(SLOT) {
                        for k in [D, E, N] {
                            let got = match k {
                                D => messages.previous_direct_message::<R<7, SLOT>>(num),
                                E => messages.previous_echo_broadcast::<R<7, SLOT>>(num),
                                _ => messages.previous_normal_broadcast::<R<7, SLOT>>(num),
                            };
                            match got {
                                Ok(v) => seen.prev.push((num, k, v)),
                                _ => complete &= self.req.prev.get(&num).is_none_or(|b| b & k == 0),
                            }
                        }
                        match messages.combined_echos::<R<7, SLOT>>(num) {
                            Ok(m) => seen.echos.push((num, m.into_iter().map(|(k, v)| (k.0, v)).collect())),
                            _ => complete &= !self.req.echos.contains(&num),
                        }
                    }
                    let guilty = seen.parts.iter().any(|(k, v)| *k == self.carrier && v.tag >= TAG_PROVABLE);
                    LENIENT.with(|l| l.borrow_mut().as_mut().unwrap().push(seen));
                    return if complete && guilty { Ok(()) } else { Err(inv("no fault")) };
                }
                if round_id != &RoundId::new(self.seen_round) {
                    return Err(inv("round id"));
                }
                if shared_randomness != &self.seen_sr[..] {
                    return Err(inv("shared randomness"));
                }
                if shared_data.magic != self.seen_magic {
                    return Err(inv("shared data"));
                }
                let mut offending = false;
                for k in [D, E, N] {
                    let got: Result<Option<Val>, EvidenceError> = match k {
                        D => messages.direct_message().map(|x| opt!($d, x)),
                        E => messages.echo_broadcast().map(|x| opt!($e, x)),
                        _ => messages.normal_broadcast().map(|x| opt!($n, x)),
                    };
                    if self.req.this & k != 0 {
                        let got = got?.ok_or_else(|| inv("no part"))?;
                        let seen = self.seen_this.iter().find(|(kk, _)| *kk == k).ok_or_else(|| inv("unseen part"))?;
                        if got != seen.1 {
                            return Err(inv("part differs from what was received"));
                        }
                        if k == self.carrier && got.tag >= TAG_PROVABLE && got.from == from.0 {
                            offending = true;
                        }
                    } else if matches!(got, Ok(Some(_))) {
                        return Err(inv("a part that was not asked for"));
                    }
                }
                if !offending {
                    return Err(inv("nothing wrong with the message"));
                }
                for num in rounds_to_ask(SLOT) {
                    let bits = self.req.prev.get(&num).copied().unwrap_or(0);
                    for k in [D, E, N] {
                        let got = match k {
                            D => messages.previous_direct_message::<R<7, SLOT>>(num),
                            E => messages.previous_echo_broadcast::<R<7, SLOT>>(num),
                            _ => messages.previous_normal_broadcast::<R<7, SLOT>>(num),
                        };
                        if bits & k != 0 {
                            let got = got?;
                            let seen = self
                                .seen_prev
                                .iter()
                                .find(|(n, kk, _)| *kk == k && *n == num)
                                .ok_or_else(|| inv("unseen part"))?;
                            if got != seen.2 {
                                return Err(inv("previous part differs from what was received"));
                            }
                        } else if got.is_ok() {
                            return Err(inv("a previous part that was not asked for"));
                        }
                    }
                    let got = messages.combined_echos::<R<7, SLOT>>(num);
                    if self.req.echos.contains(&num) {
                        let got = got?.into_iter().map(|(k, v)| (k.0, v)).collect::<Vec<_>>();
                        let seen =
                            self.seen_echos.iter().find(|(n, _)| *n == num).ok_or_else(|| inv("unseen echos"))?;
                        if got != seen.1 {
                            return Err(inv("combined echos differ from what was received"));
                        }
                    } else if got.is_ok() {
                        return Err(inv("combined echos that were not asked for"));
                    }
                }
                Ok(())
            }
        }
    };
}

macro_rules! ext_d {
    (y) => {
        fn make_direct_message(&self, rng: &mut impl CryptoRngCore, round: &Self::Round, destination: &Id) -> Result<(Val, Art), LocalError> {
            let (mut v, a) = round.make_direct_message(rng, destination)?;
            v.tag = round.ext_tag(&self.0, D).unwrap_or(v.tag);
            Ok((v, a))
        }
    };
    (n) => {};
}
macro_rules! ext_e {
    (y) => {
        fn make_echo_broadcast(&self, rng: &mut impl CryptoRngCore, round: &Self::Round) -> Result<Val, LocalError> {
            let mut v = round.make_echo_broadcast(rng)?;
            v.tag = round.ext_tag(&self.0, E).unwrap_or(v.tag);
            *round.own_e.lock().unwrap() = Some(v.clone());
            Ok(v)
        }
    };
    (n) => {};
}
macro_rules! ext_n {
    (y) => {
        fn make_normal_broadcast(&self, rng: &mut impl CryptoRngCore, round: &Self::Round) -> Result<Val, LocalError> {
            let mut v = round.make_normal_broadcast(rng)?;
            v.tag = round.ext_tag(&self.0, N).unwrap_or(v.tag);
            *round.own_n.lock().unwrap() = Some(v.clone());
            Ok(v)
        }
    };
    (n) => {};
}
macro_rules! ext_fin {
    ($d:tt) => {
        fn finalize(
            &self,
            rng: &mut impl CryptoRngCore,
            round: Self::Round,
            payloads: BTreeMap<Id, Rcv>,
            artifacts: BTreeMap<Id, art!($d)>,
        ) -> Result<FinalizeOutcome<Id, <Self::Round as Round<Id>>::Protocol>, LocalError> {
            let (mut payloads, mut artifacts) = (payloads, artifacts);
            match round.ext_tag(&self.0, 0) {
                Some(FIN_ALTERED) => alter(&mut payloads, arts_of!($d, artifacts)),
                Some(FIN_EARLY) => return Ok(FinalizeOutcome::Result(round.log)),
                _ => {}
            }
            let _ = &mut artifacts;
            round.finalize(rng, payloads, artifacts)
        }
    };
}
macro_rules! arts_of {
    (y, $a:ident) => {
        $a.values_mut()
    };
    (n, $a:ident) => {
        std::iter::empty()
    };
}
macro_rules! grid_exts {
    ($c:literal, $d:tt, $e:tt, $n:tt) => {
        impl<const SLOT: u8> RoundExtension<Id> for ExtNoop<$c, SLOT> {
            type Round = R<$c, SLOT>;
        }
        impl<const SLOT: u8> RoundExtension<Id> for ExtD<$c, SLOT> {
            type Round = R<$c, SLOT>;
            ext_d!($d);
        }
        impl<const SLOT: u8> RoundExtension<Id> for ExtE<$c, SLOT> {
            type Round = R<$c, SLOT>;
            ext_e!($e);
        }
        impl<const SLOT: u8> RoundExtension<Id> for ExtN<$c, SLOT> {
            type Round = R<$c, SLOT>;
            ext_n!($n);
        }
        impl<const SLOT: u8> RoundExtension<Id> for ExtFin<$c, SLOT> {
            type Round = R<$c, SLOT>;
            ext_fin!($d);
        }
        impl<const SLOT: u8> RoundExtension<Id> for ExtAll<$c, SLOT> {
            type Round = R<$c, SLOT>;
            ext_d!($d);
            ext_e!($e);
            ext_n!($n);
            ext_fin!($d);
        }
    };
}
macro_rules! ty {
    (y) => { Val };
    (n) => { NoMessage };
}
macro_rules! art {
    (y) => { Art };
    (n) => { NoArtifact };
}
macro_rules! opt {
    (y, $x:expr) => { Some($x) };
    (n, $x:expr) => {{
        let _ = $x;
        None
    }};
}
macro_rules! mk_d {
    (y) => {
        fn make_direct_message(&self, rng: &mut impl CryptoRngCore, destination: &Id) -> Result<(Val, Art), LocalError> {
            let v = self.val(D, destination.0, rng);
            let a = Art { to: destination.0, round: self.num, fresh: v.fresh };
            Ok((v, a))
        }
    };
    (n) => {};
}
macro_rules! mk_e {
    (y) => {
        fn make_echo_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<Val, LocalError> {
            let v = self.val(E, BCAST, rng);
            *self.own_e.lock().unwrap() = Some(v.clone());
            Ok(v)
        }
    };
    (n) => {};
}
macro_rules! mk_n {
    (y) => {
        fn make_normal_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<Val, LocalError> {
            let v = self.val(N, BCAST, rng);
            *self.own_n.lock().unwrap() = Some(v.clone());
            Ok(v)
        }
    };
    (n) => {};
}
grid_exts!(0, n, n, n);
grid_exts!(1, y, n, n);
grid_exts!(2, n, y, n);
grid_exts!(3, y, y, n);
grid_exts!(4, n, n, y);
grid_exts!(5, y, n, y);
grid_exts!(6, n, y, y);
grid_exts!(7, y, y, y);
grid_round!(0, n, n, n);
grid_round!(1, y, n, n);
grid_round!(2, n, y, n);
grid_round!(3, y, y, n);
grid_round!(4, n, n, y);
grid_round!(5, y, n, y);
grid_round!(6, n, y, y);
grid_round!(7, y, y, y);

#[derive(Debug, Clone)]
pub struct Ep<const SLOT: u8> {
    pub shape: Arc<Shape>,
    pub obs: Arc<Obs>,
    pub prior: RunLog,
}

impl<const SLOT: u8> EntryPoint<Id> for Ep<SLOT> {
    type Protocol = Grid<SLOT>;
    fn entry_round_id() -> RoundId {
        entry_of(SLOT)
    }
    fn make_round(
        self,
        rng: &mut impl CryptoRngCore,
        shared_randomness: &[u8],
        id: &Id,
    ) -> Result<BoxedRound<Id, Grid<SLOT>>, LocalError> {
        if let Some(exts) = self.shape.clone().ext.get(&id.0) {
            let shape = self.shape.clone();
            let mut ep = ExtendableEntryPoint::new(PlainEp(self));
            for (combo, kind) in exts {
                macro_rules! install {
                    ($c:literal) => {
                        match kind {
                            ExtKind::Noop => ep.extend(ExtNoop::<$c, SLOT>),
                            ExtKind::All => ep.extend(ExtAll::<$c, SLOT>(shape.clone())),
                            ExtKind::Only(D) => ep.extend(ExtD::<$c, SLOT>(shape.clone())),
                            ExtKind::Only(E) => ep.extend(ExtE::<$c, SLOT>(shape.clone())),
                            ExtKind::Only(N) => ep.extend(ExtN::<$c, SLOT>(shape.clone())),
                            ExtKind::Only(_) => ep.extend(ExtFin::<$c, SLOT>(shape.clone())),
                        }
                    };
                }
                by_combo!(*combo, install);
            }
            assert_eq!(ExtendableEntryPoint::<Id, PlainEp<SLOT>>::entry_round_id(), Self::entry_round_id(), "entry round");
            return ep.make_round(rng, shared_randomness, id);
        }
        PlainEp(self).make_round(rng, shared_randomness, id)
    }
}

/// Never wrapped.
#[derive(Debug, Clone)]
struct PlainEp<const SLOT: u8>(Ep<SLOT>);

impl<const SLOT: u8> EntryPoint<Id> for PlainEp<SLOT> {
    type Protocol = Grid<SLOT>;
    fn entry_round_id() -> RoundId {
        entry_of(SLOT)
    }
    fn make_round(
        self,
        _rng: &mut impl CryptoRngCore,
        shared_randomness: &[u8],
        id: &Id,
    ) -> Result<BoxedRound<Id, Grid<SLOT>>, LocalError> {
        let this = self.0;
        Ok(make_boxed::<SLOT>(&this.shape, id.0, this.shape.entry, this.prior, shared_randomness.into(), &this.obs))
    }
}

// Chains. `Two<A>`: Grid<A> then Grid<A+1>; `Left`: Two<0> then Grid<2>; `Right`: Grid<0> then Two<1>.
// `Deep`: (0 then (((1 then 2) then 3) then 4)) then 5.

macro_rules! chain {
    ($proto:ident, $p1:ty, $p2:ty, $ep:ident, $join:ident, $ep1:ty, $ep2:ty, |$s:ident| $mk1:expr, |$j:ident, $res:ident| $mk2:expr) => {
        #[derive(Debug, Clone, Copy, Serialize, Deserialize)]
        pub struct $proto;
        impl ChainedMarker for $proto {}
        impl ChainedProtocol<Id> for $proto {
            type Protocol1 = $p1;
            type Protocol2 = $p2;
        }
        #[derive(Debug, Clone)]
        pub struct $ep(pub Start);
        #[derive(Debug, Clone)]
        pub struct $join(pub Start);
        impl ChainedMarker for $ep {}
        impl ChainedSplit<Id> for $ep {
            type Protocol = $proto;
            type EntryPoint = $ep1;
            fn make_entry_point1(self) -> (Self::EntryPoint, impl ChainedJoin<Id, Protocol = $proto>) {
                let $s = self.0.clone();
                ($mk1, $join(self.0))
            }
        }
        impl ChainedJoin<Id> for $join {
            type Protocol = $proto;
            type EntryPoint = $ep2;
            fn make_entry_point2(self, $res: RunLog) -> Self::EntryPoint {
                let $j = self.0;
                $mk2
            }
        }
    };
}

/// Inputs of a node.
#[derive(Debug, Clone)]
pub struct Start {
    pub shapes: [Option<Arc<Shape>>; SLOTS],
    pub obs: Arc<Obs>,
    pub prior: RunLog,
}

impl Start {
    pub fn ep<const SLOT: u8>(self, prior: RunLog) -> Ep<SLOT> {
        Ep { shape: self.shapes[SLOT as usize].clone().expect("shape"), obs: self.obs, prior }
    }
    fn with(self, prior: RunLog) -> Start {
        Start { prior, ..self }
    }
}

chain!(Two01, Grid<0>, Grid<1>, EpTwo01, JoinTwo01, Ep<0>, Ep<1>, |s| s.ep::<0>(RunLog::default()), |j, res| j.ep::<1>(res));
chain!(Two12, Grid<1>, Grid<2>, EpTwo12, JoinTwo12, Ep<1>, Ep<2>, |s| { let p = s.prior.clone(); s.ep::<1>(p) }, |j, res| j.ep::<2>(res));
chain!(Deep13, Two12, Grid<3>, EpDeep13, JoinDeep13, EpTwo12, Ep<3>, |s| EpTwo12(s), |j, res| j.ep::<3>(res));
chain!(Deep14, Deep13, Grid<4>, EpDeep14, JoinDeep14, EpDeep13, Ep<4>, |s| EpDeep13(s), |j, res| j.ep::<4>(res));
chain!(Deep04, Grid<0>, Deep14, EpDeep04, JoinDeep04, Ep<0>, EpDeep14, |s| s.ep::<0>(RunLog::default()), |j, res| EpDeep14(j.with(res)));
chain!(Deep, Deep04, Grid<5>, EpDeep, JoinDeep, EpDeep04, Ep<5>, |s| EpDeep04(s), |j, res| j.ep::<5>(res));
chain!(Left, Two01, Grid<2>, EpLeft, JoinLeft, EpTwo01, Ep<2>, |s| EpTwo01(s), |j, res| j.ep::<2>(res));
chain!(Right, Grid<0>, Two12, EpRight, JoinRight, Ep<0>, EpTwo12, |s| s.ep::<0>(RunLog::default()), |j, res| EpTwo12(j.with(res)));
