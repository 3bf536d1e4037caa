//! A small protocol, signature scheme and drivers shared by the demonstrations.
#![allow(dead_code, unused_imports)]
pub use std::collections::{BTreeMap, BTreeSet};

pub use manul::dev::{BinaryFormat, HumanReadableFormat};
pub use manul::protocol::*;
pub use manul::session::*;
pub use manul::signature::{self, Keypair};
pub use rand_core::{CryptoRng, CryptoRngCore, OsRng, RngCore};
pub use serde::{de::DeserializeOwned, Deserialize, Serialize};

// ---- session parameters: signatures bind the signer and the digest -------------------------------

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Id(pub u8);
#[derive(Debug, Clone, Copy)]
pub struct Key(pub u8);
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Sig {
    nonce: u64,
    mac: u64,
}

#[derive(Clone, Default)]
pub struct Hash(Vec<u8>);
impl manul::digest::HashMarker for Hash {}
impl manul::digest::OutputSizeUser for Hash {
    type OutputSize = manul::digest::generic_array::typenum::U32;
}
impl manul::digest::Update for Hash {
    fn update(&mut self, data: &[u8]) {
        self.0.extend_from_slice(data)
    }
}
fn h64(salt: u64, data: &[u8]) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    h.write_u64(salt);
    h.write(data);
    h.finish()
}
impl manul::digest::FixedOutput for Hash {
    fn finalize_into(self, out: &mut manul::digest::Output<Self>) {
        for (i, c) in out.chunks_mut(8).enumerate() {
            c.copy_from_slice(&h64(i as u64, &self.0).to_be_bytes());
        }
    }
}
fn mac(id: u8, digest: &[u8], nonce: u64) -> u64 {
    h64(1000 + id as u64 + nonce.rotate_left(20), digest)
}
impl Keypair for Key {
    type VerifyingKey = Id;
    fn verifying_key(&self) -> Id {
        Id(self.0)
    }
}
impl<D: manul::digest::Digest> signature::RandomizedDigestSigner<D, Sig> for Key {
    fn try_sign_digest_with_rng(&self, rng: &mut impl CryptoRngCore, d: D) -> Result<Sig, signature::Error> {
        let nonce = rng.next_u64();
        Ok(Sig { nonce, mac: mac(self.0, &d.finalize(), nonce) })
    }
}
impl<D: manul::digest::Digest> signature::DigestVerifier<D, Sig> for Id {
    fn verify_digest(&self, d: D, s: &Sig) -> Result<(), signature::Error> {
        if s.mac == mac(self.0, &d.finalize(), s.nonce) {
            Ok(())
        } else {
            Err(signature::Error::new())
        }
    }
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct Params<F>(std::marker::PhantomData<F>);
impl<F: WireFormat> SessionParameters for Params<F> {
    type Signer = Key;
    type Verifier = Id;
    type Signature = Sig;
    type Digest = Hash;
    type WireFormat = F;
}
pub type Js = Params<HumanReadableFormat>;
pub type Bn = Params<BinaryFormat>;

// ---- the protocol ---------------------------------------------------------------------------------

/// What a party does. Round 1 sends an echo broadcast, a normal broadcast and direct messages;
/// round 2 sends a normal broadcast and direct messages.
/// 66: a provable fault of this part; 68: an unprovable one.
#[derive(Debug, Clone)]
pub struct Inputs {
    pub parties: BTreeSet<Id>,
    pub e: u32,
    pub n: u32,
    pub d: u32,
    pub n2: u32,
    pub d2: u32,
    /// Overrides of the communication info of round 1.
    pub to1: Option<BTreeSet<Id>>,
    pub from1: Option<BTreeSet<Id>>,
    pub echo1: Option<EchoRoundParticipation<Id>>,
    pub to2: Option<BTreeSet<Id>>,
    pub from2: Option<BTreeSet<Id>>,
}
pub fn ids(n: u8) -> BTreeSet<Id> {
    (1..=n).map(Id).collect()
}
pub fn set(v: &[u8]) -> BTreeSet<Id> {
    v.iter().map(|x| Id(*x)).collect()
}
impl Inputs {
    pub fn new(n: u8, me: u8) -> Inputs {
        let b = 1000 * me as u32;
        Inputs { parties: ids(n), e: b + 1, n: b + 2, d: b + 3, n2: b + 4, d2: b + 5, to1: None, from1: None, echo1: None, to2: None, from2: None }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Res {
    /// (echo, normal, direct) from every sender in round 1, the direct artifacts of round 1.
    pub r1: BTreeMap<Id, (u32, u32, u32)>,
    pub a1: BTreeMap<Id, u32>,
    pub r2: BTreeMap<Id, (u32, u32)>,
    pub a2: BTreeMap<Id, u32>,
}
#[derive(Debug, Serialize, Deserialize)]
pub struct Proto;
impl Protocol<Id> for Proto {
    type Result = Res;
    type SharedData = ();
    fn round_info(r: &RoundId) -> Option<RoundInfo<Id, Self>> {
        match r {
            _ if r == 1 => Some(RoundInfo::new::<R1>()),
            _ if r == 2 => Some(RoundInfo::new::<R2>()),
            _ => None,
        }
    }
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]
pub enum Part {
    Echo,
    Normal,
    Direct,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct E1(pub Part);
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct E2(pub Part);
fn bad(b: bool) -> Result<(), EvidenceError> {
    if b {
        Ok(())
    } else {
        Err(EvidenceError::InvalidEvidence("nothing wrong".into()))
    }
}
impl ProtocolError<Id> for E1 {
    type Round = R1;
    fn description(&self) -> String {
        "bad part".into()
    }
    fn required_messages(&self, _: &RoundId) -> RequiredMessages {
        let p = match self.0 {
            Part::Echo => RequiredMessageParts::echo_broadcast(),
            Part::Normal => RequiredMessageParts::normal_broadcast(),
            Part::Direct => RequiredMessageParts::direct_message(),
        };
        RequiredMessages::new(p, None, None)
    }
    fn verify_evidence(&self, _: &RoundId, _: &Id, _: &[u8], _: &(), m: EvidenceMessages<'_, Id, R1>) -> Result<(), EvidenceError> {
        match self.0 {
            Part::Echo => bad(m.echo_broadcast()? == 66),
            Part::Normal => bad(m.normal_broadcast()? == 66),
            Part::Direct => bad(m.direct_message()? == 66),
        }
    }
}
impl ProtocolError<Id> for E2 {
    type Round = R2;
    fn description(&self) -> String {
        "bad part in round 2".into()
    }
    fn required_messages(&self, _: &RoundId) -> RequiredMessages {
        RequiredMessages::new(
            RequiredMessageParts::normal_broadcast().and_direct_message(),
            Some([(1.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast().and_direct_message())].into()),
            Some([1.into()].into()),
        )
    }
    fn verify_evidence(&self, _: &RoundId, _: &Id, _: &[u8], _: &(), m: EvidenceMessages<'_, Id, R2>) -> Result<(), EvidenceError> {
        m.previous_echo_broadcast::<R1>(1)?;
        m.previous_normal_broadcast::<R1>(1)?;
        m.previous_direct_message::<R1>(1)?;
        m.combined_echos::<R1>(1)?;
        match self.0 {
            Part::Normal => bad(m.normal_broadcast()? == 66),
            Part::Direct => bad(m.direct_message()? == 66),
            Part::Echo => bad(m.previous_echo_broadcast::<R1>(1)? == 77),
        }
    }
}
#[derive(Debug)]
pub struct R1 {
    me: Id,
    i: Inputs,
}
impl R1 {
    pub fn inputs(&self) -> &Inputs {
        &self.i
    }
}
fn others(me: &Id, i: &Inputs) -> BTreeSet<Id> {
    i.parties.iter().filter(|x| *x != me).cloned().collect()
}
impl Round<Id> for R1 {
    type Protocol = Proto;
    type ProtocolError = E1;
    type DirectMessage = u32;
    type NormalBroadcast = u32;
    type EchoBroadcast = u32;
    type Payload = (u32, u32, u32);
    type Artifact = u32;
    fn transition_info(&self) -> TransitionInfo {
        TransitionInfo::new_linear(1)
    }
    fn communication_info(&self) -> CommunicationInfo<Id> {
        CommunicationInfo {
            message_destinations: self.i.to1.clone().unwrap_or_else(|| others(&self.me, &self.i)),
            expecting_messages_from: self.i.from1.clone().unwrap_or_else(|| others(&self.me, &self.i)),
            echo_round_participation: self.i.echo1.clone().unwrap_or(EchoRoundParticipation::Default),
        }
    }
    fn make_direct_message(&self, _: &mut impl CryptoRngCore, to: &Id) -> Result<(u32, u32), LocalError> {
        Ok((self.i.d, 10 * to.0 as u32 + self.me.0 as u32))
    }
    fn make_normal_broadcast(&self, _: &mut impl CryptoRngCore) -> Result<u32, LocalError> {
        Ok(self.i.n)
    }
    fn make_echo_broadcast(&self, _: &mut impl CryptoRngCore) -> Result<u32, LocalError> {
        Ok(self.i.e)
    }
    fn receive_message(&self, _: &Id, m: ProtocolMessage<Id, Self>) -> Result<(u32, u32, u32), ReceiveError<Id, Self>> {
        for (p, x) in [(Part::Echo, m.echo_broadcast), (Part::Normal, m.normal_broadcast), (Part::Direct, m.direct_message)] {
            if x == 66 {
                return Err(ReceiveError::Protocol(E1(p)));
            }
            if x == 68 {
                return Err(ReceiveError::Unprovable(RemoteError::new("unprovable")));
            }
        }
        Ok((m.echo_broadcast, m.normal_broadcast, m.direct_message))
    }
    fn finalize(self, _: &mut impl CryptoRngCore, p: BTreeMap<Id, (u32, u32, u32)>, a: BTreeMap<Id, u32>) -> Result<FinalizeOutcome<Id, Proto>, LocalError> {
        Ok(FinalizeOutcome::AnotherRound(BoxedRound::new(R2 { me: self.me, i: self.i, r: Res { r1: p, a1: a, ..Default::default() } })))
    }
}
#[derive(Debug)]
pub struct R2 {
    me: Id,
    i: Inputs,
    r: Res,
}
impl Round<Id> for R2 {
    type Protocol = Proto;
    type ProtocolError = E2;
    type DirectMessage = u32;
    type NormalBroadcast = u32;
    type EchoBroadcast = NoMessage;
    type Payload = (u32, u32);
    type Artifact = u32;
    fn transition_info(&self) -> TransitionInfo {
        TransitionInfo::new_linear_terminating(2)
    }
    fn communication_info(&self) -> CommunicationInfo<Id> {
        CommunicationInfo {
            message_destinations: self.i.to2.clone().unwrap_or_else(|| others(&self.me, &self.i)),
            expecting_messages_from: self.i.from2.clone().unwrap_or_else(|| others(&self.me, &self.i)),
            echo_round_participation: EchoRoundParticipation::Default,
        }
    }
    fn make_direct_message(&self, _: &mut impl CryptoRngCore, to: &Id) -> Result<(u32, u32), LocalError> {
        Ok((self.i.d2, 100 * to.0 as u32 + self.me.0 as u32))
    }
    fn make_normal_broadcast(&self, _: &mut impl CryptoRngCore) -> Result<u32, LocalError> {
        Ok(self.i.n2)
    }
    fn receive_message(&self, _: &Id, m: ProtocolMessage<Id, Self>) -> Result<(u32, u32), ReceiveError<Id, Self>> {
        for (p, x) in [(Part::Normal, m.normal_broadcast), (Part::Direct, m.direct_message)] {
            if x == 66 {
                return Err(ReceiveError::Protocol(E2(p)));
            }
            if x == 68 {
                return Err(ReceiveError::Unprovable(RemoteError::new("unprovable")));
            }
        }
        Ok((m.normal_broadcast, m.direct_message))
    }
    fn finalize(self, _: &mut impl CryptoRngCore, p: BTreeMap<Id, (u32, u32)>, a: BTreeMap<Id, u32>) -> Result<FinalizeOutcome<Id, Proto>, LocalError> {
        let mut r = self.r;
        r.r2 = p;
        r.a2 = a;
        Ok(FinalizeOutcome::Result(r))
    }
}
impl EntryPoint<Id> for Inputs {
    type Protocol = Proto;
    fn entry_round_id() -> RoundId {
        1.into()
    }
    fn make_round(self, _: &mut impl CryptoRngCore, _: &[u8], id: &Id) -> Result<BoxedRound<Id, Proto>, LocalError> {
        Ok(BoxedRound::new(R1 { me: *id, i: self }))
    }
}

// ---- a protocol with the same rounds but other message types, for making malformed parts ----------

#[derive(Debug, Clone)]
pub struct Odd {
    pub parties: BTreeSet<Id>,
    pub round: u8,
    pub e: Option<String>,
    pub n: Option<String>,
    pub d: Option<String>,
}
macro_rules! odd {
    ($name:ident, $err:ident, $e:ty, $n:ty, $d:ty, $a:ty, { $($body:tt)* }) => {
        #[derive(Debug)]
        pub struct $name { me: Id, i: Odd }
        impl Round<Id> for $name {
            type Protocol = OddProto;
            type ProtocolError = NoProtocolErrors<Self>;
            type DirectMessage = $d;
            type NormalBroadcast = $n;
            type EchoBroadcast = $e;
            type Payload = ();
            type Artifact = $a;
            fn transition_info(&self) -> TransitionInfo { TransitionInfo::new_linear(self.i.round) }
            fn communication_info(&self) -> CommunicationInfo<Id> {
                CommunicationInfo::regular(&self.i.parties.iter().filter(|x| **x != self.me).cloned().collect())
            }
            fn receive_message(&self, _: &Id, _: ProtocolMessage<Id, Self>) -> Result<(), ReceiveError<Id, Self>> { Ok(()) }
            fn finalize(self, _: &mut impl CryptoRngCore, _: BTreeMap<Id, ()>, _: BTreeMap<Id, $a>) -> Result<FinalizeOutcome<Id, OddProto>, LocalError> {
                Ok(FinalizeOutcome::Result(()))
            }
            $($body)*
        }
    };
}
odd!(Odd111, E, String, String, String, (), {
    fn make_direct_message(&self, _: &mut impl CryptoRngCore, _: &Id) -> Result<(String, ()), LocalError> { Ok((self.i.d.clone().unwrap(), ())) }
    fn make_normal_broadcast(&self, _: &mut impl CryptoRngCore) -> Result<String, LocalError> { Ok(self.i.n.clone().unwrap()) }
    fn make_echo_broadcast(&self, _: &mut impl CryptoRngCore) -> Result<String, LocalError> { Ok(self.i.e.clone().unwrap()) }
});
odd!(Odd000, E, NoMessage, NoMessage, NoMessage, NoArtifact, {});
#[derive(Debug)]
pub struct OddProto;
impl Protocol<Id> for OddProto {
    type Result = ();
    type SharedData = ();
    fn round_info(_: &RoundId) -> Option<RoundInfo<Id, Self>> {
        None
    }
}
impl EntryPoint<Id> for Odd {
    type Protocol = OddProto;
    fn entry_round_id() -> RoundId {
        1.into()
    }
    fn make_round(self, _: &mut impl CryptoRngCore, _: &[u8], id: &Id) -> Result<BoxedRound<Id, OddProto>, LocalError> {
        Ok(if self.e.is_some() { BoxedRound::new(Odd111 { me: *id, i: self }) } else { BoxedRound::new(Odd000 { me: *id, i: self }) })
    }
}

// ---- driving sessions by hand ------------------------------------------------------------------------

pub type Msg = Message<Id>;
pub struct Node<SP: SessionParameters<Verifier = Id, Signer = Key>, P: Protocol<Id> = Proto> {
    pub s: Session<P, SP>,
    pub a: RoundAccumulator<P, SP>,
}
pub enum Next<SP: SessionParameters<Verifier = Id, Signer = Key>, P: Protocol<Id> = Proto> {
    Round(Node<SP, P>, Vec<VerifiedMessage<Id>>),
    Done(SessionReport<P, SP>),
}
pub fn sid<SP: SessionParameters>(n: u8) -> SessionId {
    SessionId::from_seed::<SP>(&[n])
}
impl<SP: SessionParameters<Verifier = Id, Signer = Key>, P: Protocol<Id>> Node<SP, P> {
    pub fn new<EP: EntryPoint<Id, Protocol = P>>(me: u8, ep: EP) -> Self {
        Self::of(me, ep, 1)
    }
    pub fn of<EP: EntryPoint<Id, Protocol = P>>(me: u8, ep: EP, session: u8) -> Self {
        let s = Session::<P, SP>::new(&mut OsRng, sid::<SP>(session), Key(me), ep).unwrap();
        let a = s.make_accumulator();
        Node { s, a }
    }
    /// Makes all the messages of this round.
    pub fn out(&mut self) -> BTreeMap<Id, Msg> {
        let mut r = BTreeMap::new();
        for d in self.s.message_destinations().clone() {
            let (m, art) = self.s.make_message(&mut OsRng, &d).unwrap();
            self.s.add_artifact(&mut self.a, art).unwrap();
            r.insert(d, m);
        }
        r
    }
    pub fn pre(&mut self, from: u8, m: &Msg) -> Result<PreprocessOutcome<Id>, LocalError> {
        self.s.preprocess_message(&mut self.a, &Id(from), m.clone())
    }
    pub fn apply(&mut self, m: VerifiedMessage<Id>) -> Result<(), LocalError> {
        let p = self.s.process_message(m);
        self.s.add_processed_message(&mut self.a, p)
    }
    /// Receives and processes a message.
    pub fn recv(&mut self, from: u8, m: &Msg) -> Result<&'static str, LocalError> {
        match self.pre(from, m)? {
            PreprocessOutcome::ToProcess(v) => {
                self.apply(*v)?;
                Ok("processed")
            }
            PreprocessOutcome::Cached => Ok("cached"),
            PreprocessOutcome::Error(_) => Ok("rejected"),
        }
    }
    pub fn can(&self) -> CanFinalize {
        self.s.can_finalize(&self.a)
    }
    /// Finalizes the round without delivering the cached messages.
    pub fn fin(self) -> Next<SP, P> {
        match self.s.finalize_round(&mut OsRng, self.a).unwrap() {
            RoundOutcome::Finished(r) => Next::Done(r),
            RoundOutcome::AnotherRound { session, cached_messages } => {
                let a = session.make_accumulator();
                Next::Round(Node { s: *session, a }, cached_messages)
            }
        }
    }
    /// Finalizes the round and processes the cached messages.
    pub fn next(self) -> Self {
        match self.fin() {
            Next::Round(mut n, c) => {
                for m in c {
                    n.apply(m).unwrap();
                }
                n
            }
            Next::Done(r) => panic!("finished: {}", r.brief()),
        }
    }
    pub fn done(self) -> SessionReport<P, SP> {
        match self.fin() {
            Next::Done(r) => r,
            Next::Round(n, _) => panic!("not finished, in {:?}", n.s.round_id()),
        }
    }
}
/// All parties of a session, in the same round.
pub fn nodes<SP: SessionParameters<Verifier = Id, Signer = Key>>(n: u8, f: impl Fn(u8, &mut Inputs)) -> BTreeMap<u8, Node<SP>> {
    (1..=n)
        .map(|i| {
            let mut inp = Inputs::new(n, i);
            f(i, &mut inp);
            (i, Node::new(i, inp))
        })
        .collect()
}
/// Messages of the current round: [from][to].
pub fn outs<SP: SessionParameters<Verifier = Id, Signer = Key>>(v: &mut BTreeMap<u8, Node<SP>>) -> BTreeMap<u8, BTreeMap<u8, Msg>> {
    v.iter_mut().map(|(i, n)| (*i, n.out().into_iter().map(|(k, m)| (k.0, m)).collect())).collect()
}
/// Delivers everything to everyone and finalizes the round everywhere.
pub fn step<SP: SessionParameters<Verifier = Id, Signer = Key>>(mut v: BTreeMap<u8, Node<SP>>) -> BTreeMap<u8, Node<SP>> {
    let o = outs(&mut v);
    for (from, ms) in &o {
        for (to, m) in ms {
            v.get_mut(to).unwrap().recv(*from, m).unwrap();
        }
    }
    v.into_iter().map(|(i, n)| (i, n.next())).collect()
}

// ---- changing serialized things -----------------------------------------------------------------------

pub fn js<T: Serialize>(x: &T) -> serde_json::Value {
    serde_json::to_value(x).unwrap()
}
pub fn unjs<T: DeserializeOwned>(v: &serde_json::Value) -> T {
    serde_json::from_value(v.clone()).unwrap()
}
/// Takes the given part ("echo_broadcast", "normal_broadcast", "direct_message") of a message from another one.
pub fn graft(m: &Msg, part: &str, from: &Msg) -> Msg {
    let mut a = js(m);
    a[part] = js(from)[part].clone();
    unjs(&a)
}
pub fn accused<P: Protocol<Id>, SP: SessionParameters<Verifier = Id>>(r: &SessionReport<P, SP>) -> BTreeSet<u8> {
    r.provable_errors.keys().chain(r.unprovable_errors.keys()).map(|x| x.0).collect()
}
