//! The adversary's tools: a signing oracle for arbitrary contents, and surgery on messages.
//!
//! Signatures are made by real sessions of the library (of a protocol that sends whatever it is given), so that every
//! message is exactly what a party holding the signing key could produce.
use std::cell::RefCell;

use manul::protocol::*;
use manul::session::{LocalError, Session, WireFormat};
use rand_core::CryptoRngCore;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_json::Value;

use crate::node::*;
use crate::proto::{D, E, N};
use crate::sp::*;

thread_local! {
    static RAW: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
}

/// Serializes into exactly these bytes.
#[derive(Debug, Clone)]
pub struct Raw(pub Vec<u8>);
impl Serialize for Raw {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        RAW.with(|r| *r.borrow_mut() = Some(self.0.clone()));
        s.serialize_unit()
    }
}
impl<'de> Deserialize<'de> for Raw {
    fn deserialize<De: Deserializer<'de>>(_d: De) -> Result<Self, De::Error> {
        unreachable!("never received")
    }
}

/// The given format, except for `Raw` values.
#[derive(Debug, Clone, Copy)]
pub struct AdvF<F>(std::marker::PhantomData<F>);
impl<F: WireFormat> WireFormat for AdvF<F> {
    fn serialize<T: Serialize>(value: T) -> Result<Box<[u8]>, LocalError> {
        RAW.with(|r| *r.borrow_mut() = None);
        let out = F::serialize(value)?;
        Ok(match RAW.with(|r| r.borrow_mut().take()) {
            Some(bytes) => bytes.into(),
            None => out,
        })
    }
    type Deserializer<'de> = F::Deserializer<'de>;
    fn deserializer(bytes: &[u8]) -> Self::Deserializer<'_> {
        F::deserializer(bytes)
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct AdvP;
impl Protocol<Id> for AdvP {
    type Result = ();
    type SharedData = ();
    fn round_info(_: &RoundId) -> Option<RoundInfo<Id, Self>> {
        None
    }
}

/// What to sign.
#[derive(Debug, Clone, Default)]
pub struct Parts {
    pub d: Option<Vec<u8>>,
    pub e: Option<Vec<u8>>,
    pub n: Option<Vec<u8>>,
}
impl Parts {
    pub fn get(&self, kind: u8) -> &Option<Vec<u8>> {
        match kind {
            D => &self.d,
            E => &self.e,
            _ => &self.n,
        }
    }
    pub fn get_mut(&mut self, kind: u8) -> &mut Option<Vec<u8>> {
        match kind {
            D => &mut self.d,
            E => &mut self.e,
            _ => &mut self.n,
        }
    }
}

#[derive(Debug)]
struct AdvRound<const C: u8> {
    rid: RoundId,
    parts: Parts,
    dest: u8,
}

macro_rules! adv_round {
    ($c:literal, $d:tt, $e:tt, $n:tt) => {
        impl Round<Id> for AdvRound<$c> {
            type Protocol = AdvP;
            type ProtocolError = NoProtocolErrors<Self>;
            type DirectMessage = ty!($d);
            type EchoBroadcast = ty!($e);
            type NormalBroadcast = ty!($n);
            type Payload = ();
            type Artifact = ty!($d);
            fn transition_info(&self) -> TransitionInfo {
                TransitionInfo {
                    id: self.rid.clone(),
                    parents: [].into(),
                    siblings: [].into(),
                    children: [].into(),
                    may_produce_result: true,
                }
            }
            fn communication_info(&self) -> CommunicationInfo<Id> {
                CommunicationInfo {
                    message_destinations: [Id(self.dest)].into(),
                    expecting_messages_from: [].into(),
                    echo_round_participation: EchoRoundParticipation::Send,
                }
            }
            mk_d!($d);
            mk_e!($e);
            mk_n!($n);
            fn receive_message(
                &self,
                _from: &Id,
                _message: ProtocolMessage<Id, Self>,
            ) -> Result<(), ReceiveError<Id, Self>> {
                unreachable!()
            }
            fn finalize(
                self,
                _rng: &mut impl CryptoRngCore,
                _payloads: std::collections::BTreeMap<Id, ()>,
                _artifacts: std::collections::BTreeMap<Id, Self::Artifact>,
            ) -> Result<FinalizeOutcome<Id, AdvP>, LocalError> {
                unreachable!()
            }
        }
    };
}
macro_rules! ty {
    (y) => {
        Raw
    };
    (n) => {
        NoMessage
    };
}
macro_rules! mk_d {
    (y) => {
        fn make_direct_message(&self, _rng: &mut impl CryptoRngCore, _to: &Id) -> Result<(Raw, Raw), LocalError> {
            Ok((Raw(self.parts.d.clone().unwrap()), Raw(Vec::new())))
        }
    };
    (n) => {
        fn make_direct_message(
            &self,
            _rng: &mut impl CryptoRngCore,
            _to: &Id,
        ) -> Result<(NoMessage, NoMessage), LocalError> {
            unreachable!()
        }
    };
}
macro_rules! mk_e {
    (y) => {
        fn make_echo_broadcast(&self, _rng: &mut impl CryptoRngCore) -> Result<Raw, LocalError> {
            Ok(Raw(self.parts.e.clone().unwrap()))
        }
    };
    (n) => {};
}
macro_rules! mk_n {
    (y) => {
        fn make_normal_broadcast(&self, _rng: &mut impl CryptoRngCore) -> Result<Raw, LocalError> {
            Ok(Raw(self.parts.n.clone().unwrap()))
        }
    };
    (n) => {};
}
adv_round!(1, y, n, n);
adv_round!(3, y, y, n);
adv_round!(5, y, n, y);
adv_round!(7, y, y, y);

/// A round without direct messages uses the artifact type `NoArtifact`.
macro_rules! adv_round0 {
    ($c:literal, $e:tt, $n:tt) => {
        impl Round<Id> for AdvRound<$c> {
            type Protocol = AdvP;
            type ProtocolError = NoProtocolErrors<Self>;
            type DirectMessage = NoMessage;
            type EchoBroadcast = ty!($e);
            type NormalBroadcast = ty!($n);
            type Payload = ();
            type Artifact = NoArtifact;
            fn transition_info(&self) -> TransitionInfo {
                TransitionInfo {
                    id: self.rid.clone(),
                    parents: [].into(),
                    siblings: [].into(),
                    children: [].into(),
                    may_produce_result: true,
                }
            }
            fn communication_info(&self) -> CommunicationInfo<Id> {
                CommunicationInfo {
                    message_destinations: [Id(self.dest)].into(),
                    expecting_messages_from: [].into(),
                    echo_round_participation: EchoRoundParticipation::Send,
                }
            }
            mk_e!($e);
            mk_n!($n);
            fn receive_message(
                &self,
                _from: &Id,
                _message: ProtocolMessage<Id, Self>,
            ) -> Result<(), ReceiveError<Id, Self>> {
                unreachable!()
            }
            fn finalize(
                self,
                _rng: &mut impl CryptoRngCore,
                _payloads: std::collections::BTreeMap<Id, ()>,
                _artifacts: std::collections::BTreeMap<Id, NoArtifact>,
            ) -> Result<FinalizeOutcome<Id, AdvP>, LocalError> {
                unreachable!()
            }
        }
    };
}
adv_round0!(0, n, n);
adv_round0!(2, y, n);
adv_round0!(4, n, y);
adv_round0!(6, y, y);

#[derive(Debug)]
struct AdvEp {
    rid: RoundId,
    parts: Parts,
    dest: u8,
}
impl EntryPoint<Id> for AdvEp {
    type Protocol = AdvP;
    fn entry_round_id() -> RoundId {
        RoundId::new(1)
    }
    fn make_round(
        self,
        _rng: &mut impl CryptoRngCore,
        _shared_randomness: &[u8],
        _id: &Id,
    ) -> Result<BoxedRound<Id, AdvP>, LocalError> {
        let c = self.parts.d.is_some() as u8 * D + self.parts.e.is_some() as u8 * E + self.parts.n.is_some() as u8 * N;
        macro_rules! mk {
            ($c:literal) => {
                BoxedRound::new(AdvRound::<$c> { rid: self.rid, parts: self.parts, dest: self.dest })
            };
        }
        Ok(match c {
            0 => mk!(0),
            1 => mk!(1),
            2 => mk!(2),
            3 => mk!(3),
            4 => mk!(4),
            5 => mk!(5),
            6 => mk!(6),
            _ => mk!(7),
        })
    }
}

/// A message with the given parts, signed by `signer`.
pub fn sign(fmt: Fmt, session: u8, signer: u8, rid: &RoundId, parts: &Parts, dest: u8, nonce: u64) -> Msg {
    fn go<F: WireFormat>(session: u8, signer: u8, rid: &RoundId, parts: &Parts, dest: u8, nonce: u64) -> Msg {
        let mut rng = DetRng::new(&[nonce, 77, session as u64, signer as u64, dest as u64]);
        let ep = AdvEp { rid: rid.clone(), parts: parts.clone(), dest };
        let s = Session::<AdvP, Sp<AdvF<F>>>::new(&mut rng, session_id(session), Signer(signer), ep).expect("signing");
        s.make_message(&mut rng, &Id(dest)).expect("signing").0
    }
    match fmt {
        Fmt::Json => go::<Json>(session, signer, rid, parts, dest, nonce),
        Fmt::Bin => go::<Bin>(session, signer, rid, parts, dest, nonce),
    }
}

/// Serializes a value in the given format.
pub fn encode(fmt: Fmt, value: impl Serialize) -> Vec<u8> {
    match fmt {
        Fmt::Json => serde_json::to_vec(&value).unwrap(),
        Fmt::Bin => postcard::to_allocvec(&value).unwrap(),
    }
}

// Surgery on messages, through their JSON form.

pub const FIELDS: [(u8, &str); 3] = [(D, "direct_message"), (E, "echo_broadcast"), (N, "normal_broadcast")];
pub fn field(kind: u8) -> &'static str {
    FIELDS.iter().find(|(k, _)| *k == kind).unwrap().1
}

pub fn to_json(m: &Msg) -> Value {
    serde_json::to_value(m).expect("messages are serializable")
}
pub fn from_json(v: Value) -> Msg {
    serde_json::from_value(v).expect("an edited message")
}
pub fn edit(m: &Msg, f: impl FnOnce(&mut Value)) -> Msg {
    let mut v = to_json(m);
    f(&mut v);
    from_json(v)
}

/// `m` with some parts taken from `other`.
pub fn mix_parts(m: &Msg, other: &Msg, kinds: u8) -> Msg {
    let o = to_json(other);
    edit(m, |v| {
        for (k, f) in FIELDS {
            if kinds & k != 0 {
                v[f] = o[f].clone();
            }
        }
    })
}

/// The content bytes of a part, if present.
pub fn part_text(m: &Msg, kind: u8) -> Option<Value> {
    let v = to_json(m);
    let x = v[field(kind)]["message_with_metadata"]["message"].clone();
    (!x.is_null()).then_some(x)
}

/// An entry of an echo pack, made from a message part and the hash of some content.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Entry(pub String);
impl Entry {
    pub fn json(&self) -> Value {
        serde_json::from_str(&self.0).unwrap()
    }
    pub fn of(v: &Value) -> Entry {
        Entry(v.to_string())
    }
    pub fn forge(part_of: &Msg, kind: u8, hash_hex: &str) -> Entry {
        let v = to_json(part_of);
        let p = &v[field(kind)];
        Entry::of(&serde_json::json!({
            "signature": p["signature"],
            "metadata": p["message_with_metadata"]["metadata"],
            "message_part_hash": hash_hex,
        }))
    }
}

/// The bytes of an echo pack (JSON format only).
pub fn pack(entries: &[(u8, Entry)]) -> Vec<u8> {
    let list = entries.iter().map(|(k, e)| serde_json::json!([k, e.json()])).collect::<Vec<_>>();
    serde_json::to_vec(&serde_json::json!({ "message_hashes": list })).unwrap()
}

pub fn unbase64(s: &str) -> Vec<u8> {
    let mut out = Vec::new();
    let (mut acc, mut bits) = (0u32, 0);
    for c in s.bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' | b'-' => 62,
            b'/' | b'_' => 63,
            _ => continue,
        } as u32;
        acc = (acc << 6) | v;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    out
}

/// The entries of the pack in an echo round message (JSON format only).
pub fn unpack(m: &Msg) -> Vec<(u8, Entry)> {
    let text = part_text(m, N).expect("a pack");
    let bytes = unbase64(text.as_str().unwrap());
    let v: Value = serde_json::from_slice(&bytes).expect("a JSON pack");
    v["message_hashes"]
        .as_array()
        .expect("a list")
        .iter()
        .map(|x| (x[0].as_u64().unwrap() as u8, Entry::of(&x[1])))
        .collect()
}
