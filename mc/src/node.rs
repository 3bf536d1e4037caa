//! A real session of the library behind a small object-safe interface.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use manul::combinators::chain::ChainedSharedData;
use manul::protocol::{EntryPoint, EvidenceError, Protocol, RoundId};
use manul::session::{
    CanFinalize, Evidence, LocalError, Message, PreprocessOutcome, RoundAccumulator, RoundOutcome, Session,
    SessionOutcome, SessionReport, VerifiedMessage,
};
use serde::{Deserialize, Serialize};

use crate::proto::*;
use crate::sp::*;

pub type Msg = Message<Id>;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Topo {
    Grid,
    Two,
    Left,
    Right,
    Deep,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Fmt {
    Json,
    Bin,
}

/// What is executed.
#[derive(Debug, Clone)]
pub struct Cfg {
    pub name: String,
    pub shapes: [Option<Arc<Shape>>; SLOTS],
    pub topo: Topo,
    pub fmt: Fmt,
    pub session: u8,
    /// All randomness of a node is the same.
    pub flat: bool,
}

impl Cfg {
    pub fn grid(shape: Shape) -> Cfg {
        Cfg {
            name: shape.name.clone(),
            shapes: [Some(Arc::new(shape)), None, None, None, None, None],
            topo: Topo::Grid,
            fmt: Fmt::Json,
            session: 1,
            flat: false,
        }
    }
    pub fn flat(mut self) -> Cfg {
        self.flat = true;
        self
    }
    pub fn bin(mut self) -> Cfg {
        self.fmt = Fmt::Bin;
        self.name += " (binary)";
        self
    }
    pub fn parties(&self) -> BTreeSet<u8> {
        self.shapes[0].as_ref().unwrap().parties.clone()
    }
    pub fn slots(&self) -> Vec<u8> {
        match self.topo {
            Topo::Grid => vec![0],
            Topo::Two => vec![0, 1],
            Topo::Deep => (0..6).collect(),
            _ => vec![0, 1, 2],
        }
    }
    pub fn shape(&self, slot: u8) -> &Arc<Shape> {
        self.shapes[slot as usize].as_ref().unwrap()
    }
    pub fn magics(&self) -> [u64; SLOTS] {
        std::array::from_fn(|i| self.shapes[i].as_ref().map_or(0, |s| s.magic))
    }
    /// The display name of a round of the protocol in the given slot.
    pub fn round_name(&self, slot: u8, num: u8, echo: bool) -> String {
        let prefix = match (self.topo, slot) {
            (Topo::Grid, _) => "",
            (Topo::Two, 0) => "1-",
            (Topo::Two, _) => "2-",
            (Topo::Left, 0) => "1-1-",
            (Topo::Left, 1) => "1-2-",
            (Topo::Left, _) => "2-",
            (Topo::Right, 0) => "1-",
            (Topo::Right, 1) => "2-1-",
            (Topo::Right, _) => "2-2-",
            (Topo::Deep, 0) => "1-1-",
            (Topo::Deep, 1) => "1-2-1-1-1-",
            (Topo::Deep, 2) => "1-2-1-1-2-",
            (Topo::Deep, 3) => "1-2-1-2-",
            (Topo::Deep, 4) => "1-2-2-",
            (Topo::Deep, _) => "2-",
        };
        format!("Round {prefix}{num}{}", if echo { " (echo)" } else { "" })
    }
}

/// Static description of a protocol topology.
pub trait Topology: 'static {
    type P: Protocol<Id, Result = RunLog> + std::fmt::Debug + Serialize + for<'de> Deserialize<'de>;
    type EP: EntryPoint<Id, Protocol = Self::P> + Clone + std::fmt::Debug + Send + 'static;
    fn ep(start: Start) -> Self::EP;
    fn shared(magics: [u64; SLOTS]) -> <Self::P as Protocol<Id>>::SharedData;
}
pub struct TGrid;
pub struct TTwo;
pub struct TLeft;
pub struct TRight;
fn sh(magic: u64) -> Shared {
    Shared { magic }
}
impl Topology for TGrid {
    type P = Grid<0>;
    type EP = Ep<0>;
    fn ep(start: Start) -> Ep<0> {
        let prior = start.prior.clone();
        start.ep::<0>(prior)
    }
    fn shared(m: [u64; SLOTS]) -> Shared {
        sh(m[0])
    }
}
impl Topology for TTwo {
    type P = Two01;
    type EP = EpTwo01;
    fn ep(start: Start) -> EpTwo01 {
        EpTwo01(start)
    }
    fn shared(m: [u64; SLOTS]) -> ChainedSharedData<Id, Two01> {
        ChainedSharedData { protocol1: sh(m[0]), protocol2: sh(m[1]) }
    }
}
impl Topology for TLeft {
    type P = Left;
    type EP = EpLeft;
    fn ep(start: Start) -> EpLeft {
        EpLeft(start)
    }
    fn shared(m: [u64; SLOTS]) -> ChainedSharedData<Id, Left> {
        ChainedSharedData { protocol1: TTwo::shared(m), protocol2: sh(m[2]) }
    }
}
impl Topology for TRight {
    type P = Right;
    type EP = EpRight;
    fn ep(start: Start) -> EpRight {
        EpRight(start)
    }
    fn shared(m: [u64; SLOTS]) -> ChainedSharedData<Id, Right> {
        ChainedSharedData {
            protocol1: sh(m[0]),
            protocol2: ChainedSharedData { protocol1: sh(m[1]), protocol2: sh(m[2]) },
        }
    }
}

pub struct TDeep;
impl Topology for TDeep {
    type P = Deep;
    type EP = EpDeep;
    fn ep(start: Start) -> EpDeep {
        EpDeep(start)
    }
    fn shared(m: [u64; SLOTS]) -> ChainedSharedData<Id, Deep> {
        let d12 = ChainedSharedData { protocol1: sh(m[1]), protocol2: sh(m[2]) };
        let d13 = ChainedSharedData { protocol1: d12, protocol2: sh(m[3]) };
        let d14 = ChainedSharedData { protocol1: d13, protocol2: sh(m[4]) };
        let d04 = ChainedSharedData { protocol1: sh(m[0]), protocol2: d14 };
        ChainedSharedData { protocol1: d04, protocol2: sh(m[5]) }
    }
}

/// Calls `$f::<Topology, Format>($args)` for a configuration.
#[macro_export]
macro_rules! dispatch {
    ($topo:expr, $fmt:expr, $f:ident ( $($arg:expr),* )) => {
        match ($topo, $fmt) {
            ($crate::node::Topo::Grid, $crate::node::Fmt::Json) => $f::<$crate::node::TGrid, $crate::sp::Json>($($arg),*),
            ($crate::node::Topo::Grid, $crate::node::Fmt::Bin) => $f::<$crate::node::TGrid, $crate::sp::Bin>($($arg),*),
            ($crate::node::Topo::Two, $crate::node::Fmt::Json) => $f::<$crate::node::TTwo, $crate::sp::Json>($($arg),*),
            ($crate::node::Topo::Two, $crate::node::Fmt::Bin) => $f::<$crate::node::TTwo, $crate::sp::Bin>($($arg),*),
            ($crate::node::Topo::Left, $crate::node::Fmt::Json) => $f::<$crate::node::TLeft, $crate::sp::Json>($($arg),*),
            ($crate::node::Topo::Left, $crate::node::Fmt::Bin) => $f::<$crate::node::TLeft, $crate::sp::Bin>($($arg),*),
            ($crate::node::Topo::Right, $crate::node::Fmt::Json) => $f::<$crate::node::TRight, $crate::sp::Json>($($arg),*),
            ($crate::node::Topo::Right, $crate::node::Fmt::Bin) => $f::<$crate::node::TRight, $crate::sp::Bin>($($arg),*),
            ($crate::node::Topo::Deep, $crate::node::Fmt::Json) => $f::<$crate::node::TDeep, $crate::sp::Json>($($arg),*),
            ($crate::node::Topo::Deep, $crate::node::Fmt::Bin) => $f::<$crate::node::TDeep, $crate::sp::Bin>($($arg),*),
        }
    };
}

/// A call that did not return normally.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Fail {
    Local(String),
    Panic(String),
}
impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Fail::Local(s) => write!(f, "returned a local error ({s})"),
            Fail::Panic(s) => write!(f, "panicked ({s})"),
        }
    }
}
pub type Res<T> = Result<T, Fail>;

pub fn guard<T>(f: impl FnOnce() -> Result<T, LocalError>) -> Res<T> {
    let _call = crate::report::watch::call();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(Fail::Local(e.to_string())),
        Err(e) => Err(Fail::Panic(panic_text(&*e))),
    }
}
pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Cf {
    Yes,
    NotYet,
    Never,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Pre {
    /// Index for `process` and `add`.
    ToProcess(usize),
    Cached,
    Error(String),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum EvRes {
    Ok,
    Invalid(String),
    Local(String),
    Undecodable(String),
    Panic(String),
}

#[derive(Debug, Clone)]
pub struct EvInfo {
    pub guilty: u8,
    pub desc: String,
    pub json: serde_json::Value,
    pub json_text: String,
    pub bin: Vec<u8>,
    pub verify: EvRes,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Out {
    Result(RunLog),
    NotEnough,
    Terminated,
}

#[derive(Debug, Clone)]
pub struct Rep {
    pub outcome: Out,
    pub provable: BTreeMap<u8, EvInfo>,
    pub unprovable: BTreeMap<u8, String>,
    pub missing: BTreeMap<String, BTreeSet<u8>>,
}

impl Rep {
    pub fn brief(&self) -> String {
        let out = match &self.outcome {
            Out::Result(_) => "result".to_string(),
            o => format!("{o:?}"),
        };
        format!(
            "{out}, provable {:?}, unprovable {:?}, missing {:?}",
            self.provable.iter().map(|(k, v)| (k, &v.desc)).collect::<Vec<_>>(),
            self.unprovable,
            self.missing
        )
    }
}

pub enum Fin {
    Next {
        node: Box<dyn NodeDyn>,
        /// (sender, index for `process` and `add`)
        cached: Vec<(u8, usize)>,
    },
    Done(Rep),
}

pub trait NodeDyn {
    fn id(&self) -> u8;
    fn round(&self) -> String;
    fn round_id(&self) -> RoundId;
    fn dests(&self) -> Vec<u8>;
    fn make(&mut self, to: u8) -> Res<Msg>;
    /// Adds the artifacts made so far to the accumulator.
    fn add_artifact(&mut self, to: u8) -> Res<()>;
    fn pre(&mut self, from: u8, msg: Msg) -> Res<Pre>;
    fn process(&mut self, idx: usize) -> Res<()>;
    fn add(&mut self, idx: usize) -> Res<()>;
    fn can_finalize(&self) -> Res<Cf>;
    fn finalize(self: Box<Self>) -> Res<Fin>;
    fn terminate(self: Box<Self>, due_to_errors: bool) -> Res<Rep>;
    fn feed_debug(&self, h: &mut MixHash);
    fn obs(&self) -> Arc<Obs>;

    fn make_all(&mut self) -> Res<Vec<(u8, Msg)>> {
        let mut v = Vec::new();
        for to in self.dests() {
            v.push((to, self.make(to)?));
            self.add_artifact(to)?;
        }
        Ok(v)
    }
    fn process_add(&mut self, idx: usize) -> Res<()> {
        self.process(idx)?;
        self.add(idx)
    }
    fn state_key(&self) -> u128 {
        let mut h = MixHash::default();
        self.feed_debug(&mut h);
        let (a, b) = h.out();
        ((a as u128) << 64) | b as u128
    }
}

struct HashWriter<'a>(&'a mut MixHash);
impl std::fmt::Write for HashWriter<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.feed(s.as_bytes());
        Ok(())
    }
}

enum Pend<SP: manul::session::SessionParameters> {
    Verified(VerifiedMessage<Id>),
    Processed(ProcessedOf<SP>),
    Gone,
}
/// `ProcessedMessage` and `ProcessedArtifact` are not nameable from outside.
type AddFn<P, SP> = Box<dyn FnOnce(&Session<P, SP>, &mut RoundAccumulator<P, SP>) -> Result<(), LocalError>>;
struct ProcessedOf<SP>(Box<dyn std::any::Any>, std::marker::PhantomData<fn() -> SP>);

pub struct NodeImpl<T: Topology, F: manul::session::WireFormat> {
    id: u8,
    cfg: Arc<Cfg>,
    variant: u64,
    session: Session<T::P, Sp<F>>,
    accum: RoundAccumulator<T::P, Sp<F>>,
    pend: Vec<Pend<Sp<F>>>,
    arts: BTreeMap<u8, AddFn<T::P, Sp<F>>>,
    obs: Arc<Obs>,
}

pub fn flat_rng(cfg: &Cfg, variant: u64, id: u8) -> DetRng {
    DetRng::flat(&[cfg.session as u64, variant, id as u64])
}
fn rng_for(cfg: &Cfg, variant: u64, id: u8, round: &str, purpose: u64, dest: u8) -> DetRng {
    if cfg.flat {
        return flat_rng(cfg, variant, id);
    }
    let r = hash128(round.as_bytes()) as u64;
    DetRng::new(&[cfg.session as u64, variant, id as u64, r, purpose, dest as u64])
}

pub fn start_of(cfg: &Cfg) -> Start {
    Start { shapes: cfg.shapes.clone(), obs: Arc::new(Obs::default()), prior: RunLog::default() }
}

/// Creates a fresh node. `variant` selects different randomness.
pub fn make_node(cfg: &Arc<Cfg>, id: u8, variant: u64) -> Res<Box<dyn NodeDyn>> {
    set_shapes(&cfg.shapes);
    dispatch!(cfg.topo, cfg.fmt, make_node_typed(cfg, id, variant))
}

fn make_node_typed<T: Topology, F: manul::session::WireFormat>(cfg: &Arc<Cfg>, id: u8, variant: u64) -> Res<Box<dyn NodeDyn>> {
    let start = start_of(cfg);
    let obs = start.obs.clone();
    make_node_from::<T, F, _>(cfg, id, variant, T::ep(start), obs)
}

/// A node of the plain protocol of a part of a chain, given the results of the previous ones.
pub fn make_node_after(cfg: &Arc<Cfg>, id: u8, prior: RunLog) -> Res<Box<dyn NodeDyn>> {
    fn go<T: Topology, F: manul::session::WireFormat>(cfg: &Arc<Cfg>, id: u8, prior: RunLog) -> Res<Box<dyn NodeDyn>> {
        let mut start = start_of(cfg);
        start.prior = prior;
        let obs = start.obs.clone();
        make_node_from::<T, F, _>(cfg, id, 0, T::ep(start), obs)
    }
    set_shapes(&cfg.shapes);
    dispatch!(cfg.topo, cfg.fmt, go(cfg, id, prior))
}

pub fn make_node_from<T: Topology, F: manul::session::WireFormat, EP: EntryPoint<Id, Protocol = T::P>>(
    cfg: &Arc<Cfg>,
    id: u8,
    variant: u64,
    ep: EP,
    obs: Arc<Obs>,
) -> Res<Box<dyn NodeDyn>> {
    let mut rng = rng_for(cfg, variant, id, "start", 0, 0);
    let session = guard(|| Session::<T::P, Sp<F>>::new(&mut rng, session_id(cfg.session), Signer(id), ep))?;
    let accum = guard(|| Ok(session.make_accumulator()))?;
    Ok(Box::new(NodeImpl::<T, F> {
        id,
        cfg: cfg.clone(),
        variant,
        session,
        accum,
        pend: Vec::new(),
        arts: BTreeMap::new(),
        obs,
    }))
}

pub fn sender_of(msg: &VerifiedMessage<Id>) -> u8 {
    let s = format!("{msg:?}");
    let p = s.find("from: Id(").expect("sender in the debug rendering") + 9;
    s[p..].split(')').next().unwrap().parse().unwrap()
}

pub fn rep_of<T: Topology, F: manul::session::WireFormat>(cfg: &Cfg, rep: SessionReport<T::P, Sp<F>>) -> Rep {
    let magics = cfg.magics();
    let provable = rep.provable_errors.iter().map(|(k, ev)| (k.0, ev_info::<T, F>(ev, magics))).collect();
    Rep {
        outcome: match rep.outcome {
            SessionOutcome::Result(r) => Out::Result(r),
            SessionOutcome::NotEnoughMessages => Out::NotEnough,
            SessionOutcome::Terminated => Out::Terminated,
        },
        provable,
        unprovable: rep.unprovable_errors.iter().map(|(k, v)| (k.0, v.to_string())).collect(),
        missing: rep
            .missing_messages
            .iter()
            .map(|(k, v)| (k.to_string(), v.iter().map(|x| x.0).collect()))
            .collect(),
    }
}

fn ev_info<T: Topology, F: manul::session::WireFormat>(ev: &Evidence<T::P, Sp<F>>, magics: [u64; SLOTS]) -> EvInfo {
    let json_text = serde_json::to_string(ev).unwrap_or_else(|e| format!("unserializable: {e}"));
    EvInfo {
        guilty: ev.guilty_party().0,
        desc: ev.description().to_string(),
        json: serde_json::from_str(&json_text).unwrap_or(serde_json::Value::Null),
        bin: postcard::to_allocvec(ev).unwrap_or_default(),
        json_text,
        verify: verify_typed::<T, F>(ev, magics),
    }
}

/// Deserializes evidence.
pub fn reload(cfg: &Cfg, bytes: &[u8], src: Fmt) -> Result<EvInfo, String> {
    fn go<T: Topology, F: manul::session::WireFormat>(bytes: &[u8], src: Fmt, magics: [u64; SLOTS]) -> Result<EvInfo, String> {
        let r = catch_unwind(AssertUnwindSafe(|| match src {
            Fmt::Json => serde_json::from_slice::<Evidence<T::P, Sp<F>>>(bytes).map_err(|e| e.to_string()),
            Fmt::Bin => postcard::from_bytes::<Evidence<T::P, Sp<F>>>(bytes).map_err(|e| e.to_string()),
        }));
        r.map_err(|e| panic_text(&*e))?.map(|ev| ev_info::<T, F>(&ev, magics))
    }
    set_shapes(&cfg.shapes);
    dispatch!(cfg.topo, cfg.fmt, go(bytes, src, cfg.magics()))
}

fn verify_typed<T: Topology, F: manul::session::WireFormat>(ev: &Evidence<T::P, Sp<F>>, magics: [u64; SLOTS]) -> EvRes {
    match catch_unwind(AssertUnwindSafe(|| ev.verify(&T::shared(magics)))) {
        Ok(Ok(())) => EvRes::Ok,
        Ok(Err(EvidenceError::InvalidEvidence(s))) => EvRes::Invalid(s),
        Ok(Err(EvidenceError::Local(e))) => EvRes::Local(e.to_string()),
        Err(e) => EvRes::Panic(panic_text(&*e)),
    }
}

/// Deserializes evidence of a JSON text and verifies it; also returns the party it names.
pub fn verify_json(cfg: &Cfg, text: &str, magics: [u64; SLOTS]) -> (EvRes, Option<u8>) {
    fn go<T: Topology, F: manul::session::WireFormat>(text: &str, magics: [u64; SLOTS]) -> (EvRes, Option<u8>) {
        let r = catch_unwind(AssertUnwindSafe(|| serde_json::from_str::<Evidence<T::P, Sp<F>>>(text)));
        match r {
            Ok(Ok(ev)) => (verify_typed::<T, F>(&ev, magics), Some(ev.guilty_party().0)),
            Ok(Err(e)) => (EvRes::Undecodable(e.to_string()), None),
            Err(e) => (EvRes::Panic(panic_text(&*e)), None),
        }
    }
    set_shapes(&cfg.shapes);
    dispatch!(cfg.topo, cfg.fmt, go(text, magics))
}

pub fn verify_bin(cfg: &Cfg, bytes: &[u8], magics: [u64; SLOTS]) -> (EvRes, Option<u8>) {
    fn go<T: Topology, F: manul::session::WireFormat>(bytes: &[u8], magics: [u64; SLOTS]) -> (EvRes, Option<u8>) {
        let r = catch_unwind(AssertUnwindSafe(|| postcard::from_bytes::<Evidence<T::P, Sp<F>>>(bytes)));
        match r {
            Ok(Ok(ev)) => (verify_typed::<T, F>(&ev, magics), Some(ev.guilty_party().0)),
            Ok(Err(e)) => (EvRes::Undecodable(e.to_string()), None),
            Err(e) => (EvRes::Panic(panic_text(&*e)), None),
        }
    }
    set_shapes(&cfg.shapes);
    dispatch!(cfg.topo, cfg.fmt, go(bytes, magics))
}

impl<T: Topology, F: manul::session::WireFormat> NodeDyn for NodeImpl<T, F> {
    fn id(&self) -> u8 {
        self.id
    }
    fn round(&self) -> String {
        self.session.round_id().to_string()
    }
    fn round_id(&self) -> RoundId {
        self.session.round_id()
    }
    fn dests(&self) -> Vec<u8> {
        self.session.message_destinations().iter().map(|x| x.0).collect()
    }
    fn make(&mut self, to: u8) -> Res<Msg> {
        let mut rng = rng_for(&self.cfg, self.variant, self.id, &self.round(), 1, to);
        let session = &self.session;
        let (msg, art) = guard(|| session.make_message(&mut rng, &Id(to)))?;
        self.arts.insert(to, Box::new(move |s, a| s.add_artifact(a, art)));
        Ok(msg)
    }
    fn add_artifact(&mut self, to: u8) -> Res<()> {
        let f = self.arts.remove(&to).expect("artifact");
        let (session, accum) = (&self.session, &mut self.accum);
        guard(|| f(session, accum))
    }
    fn pre(&mut self, from: u8, msg: Msg) -> Res<Pre> {
        let (session, accum) = (&self.session, &mut self.accum);
        Ok(match guard(|| session.preprocess_message(accum, &Id(from), msg))? {
            PreprocessOutcome::ToProcess(m) => {
                self.pend.push(Pend::Verified(*m));
                Pre::ToProcess(self.pend.len() - 1)
            }
            PreprocessOutcome::Cached => Pre::Cached,
            PreprocessOutcome::Error(e) => Pre::Error(e.to_string()),
        })
    }
    fn process(&mut self, idx: usize) -> Res<()> {
        let Pend::Verified(m) = std::mem::replace(&mut self.pend[idx], Pend::Gone) else { panic!("not a verified message") };
        let session = &self.session;
        let p = guard(|| Ok(session.process_message(m)))?;
        let f: AddFn<T::P, Sp<F>> = Box::new(move |s, a| s.add_processed_message(a, p));
        self.pend[idx] = Pend::Processed(ProcessedOf(Box::new(f), Default::default()));
        Ok(())
    }
    fn add(&mut self, idx: usize) -> Res<()> {
        let Pend::Processed(p) = std::mem::replace(&mut self.pend[idx], Pend::Gone) else { panic!("not a processed message") };
        let f = p.0.downcast::<AddFn<T::P, Sp<F>>>().expect("type");
        let (session, accum) = (&self.session, &mut self.accum);
        guard(|| f(session, accum))
    }
    fn can_finalize(&self) -> Res<Cf> {
        guard(|| {
            Ok(match self.session.can_finalize(&self.accum) {
                CanFinalize::Yes => Cf::Yes,
                CanFinalize::NotYet => Cf::NotYet,
                CanFinalize::Never => Cf::Never,
            })
        })
    }
    fn finalize(self: Box<Self>) -> Res<Fin> {
        let this = *self;
        let mut rng = rng_for(&this.cfg, this.variant, this.id, &this.session.round_id().to_string(), 2, 0);
        let (session, accum) = (this.session, this.accum);
        match guard(move || session.finalize_round(&mut rng, accum))? {
            RoundOutcome::Finished(rep) => Ok(Fin::Done(rep_of::<T, F>(&this.cfg, rep))),
            RoundOutcome::AnotherRound { session, cached_messages } => {
                let accum = guard(|| Ok(session.make_accumulator()))?;
                let cached = cached_messages.iter().enumerate().map(|(i, m)| (sender_of(m), i)).collect();
                Ok(Fin::Next {
                    node: Box::new(NodeImpl::<T, F> {
                        id: this.id,
                        cfg: this.cfg,
                        variant: this.variant,
                        session: *session,
                        accum,
                        pend: cached_messages.into_iter().map(Pend::Verified).collect(),
                        arts: BTreeMap::new(),
                        obs: this.obs,
                    }),
                    cached,
                })
            }
        }
    }
    fn terminate(self: Box<Self>, due_to_errors: bool) -> Res<Rep> {
        let this = *self;
        let (session, accum) = (this.session, this.accum);
        let rep = guard(move || if due_to_errors { session.terminate_due_to_errors(accum) } else { session.terminate(accum) })?;
        Ok(rep_of::<T, F>(&this.cfg, rep))
    }
    fn feed_debug(&self, h: &mut MixHash) {
        let _ = write!(HashWriter(h), "{:?}|{:?}", self.session, self.accum);
    }
    fn obs(&self) -> Arc<Obs> {
        self.obs.clone()
    }
}
