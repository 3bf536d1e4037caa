//! Menus of messages: everything honest parties would send, and what corrupted ones can make of it.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use manul::protocol::RoundId;
use serde_json::json;

use crate::adv::*;
use crate::local::*;
use crate::node::*;
use crate::open::*;
use crate::proto::*;
use crate::world::*;

pub const OUTSIDER: u8 = 200;

/// What is needed to build messages for a victim.
pub struct Arena {
    pub cfg: Arc<Cfg>,
    pub me: u8,
    pub w0: Arc<World>,
    /// Executions in which one party uses different randomness.
    pub alt: BTreeMap<u8, Arc<World>>,
    /// The same with another session ID.
    pub other: Arc<World>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Atk {
    /// A different valid message.
    Alt,
    /// The same contents, signed again. Nothing is wrong with it.
    Resigned,
    /// The signature of a part belongs to something else.
    SigSwap(u8),
    /// The signature of a part cannot be read.
    SigGarbage(u8),
    /// Everything is of another session.
    OtherSession,
    /// A part is of another session.
    OtherSessionPart(u8),
    /// A part is of another round.
    OtherRoundPart(u8),
    /// The metadata of a message of another round are changed.
    Relabel,
    /// The metadata of a message of another session are changed.
    RelabelSession,
    /// The content of a part is replaced, the signature is not.
    ContentSwap(u8),
    /// A part is put in the place of another one.
    RoleSwap(u8, u8),
    /// Contents of two parts with their signatures and all are exchanged.
    Undecodable(u8),
    /// No bytes at all where something is declared.
    UndecodableEmpty(u8),
    /// No bytes, but present where nothing is declared.
    ExtraEmpty(u8),
    Missing(u8),
    Extra(u8),
    TagUnprov(u8),
    TagProv(u8),
    /// An offence whose evidence needs the given messages of the shape's list.
    TagReq(u8, u8),
    /// The direct message is for someone else.
    WrongAddressee,
    /// A well-formed part with the contents of another round.
    Stale(u8),
    /// The message of another party.
    OfOther,
    /// A part of another party's message.
    PartOfOther(u8),
    /// For a round that does not exist.
    UnknownRound,
    /// Echo pack: an expected entry is missing, an entry of someone else is there.
    PackMissing,
    PackEmpty,
    PackOwn,
    PackOutsider,
    PackBrokenSig,
    PackGarbageSig,
    PackOtherSession,
    PackOtherRound,
    PackRelabeled,
    PackOtherKind(u8),
    PackOtherSigner,
    PackHash,
    PackDuplicate,
    /// A valid entry for a different valid broadcast of the named sender.
    PackAlt,
}

impl Arena {
    pub fn new(cfg: &Arc<Cfg>, me: u8) -> Result<Arena, String> {
        let w0 = Arc::new(World::new(cfg, &BTreeMap::new())?);
        let mut alt = BTreeMap::new();
        for g in cfg.parties() {
            if g != me {
                alt.insert(g, Arc::new(World::new(cfg, &BTreeMap::from([(g, 1)]))?));
            }
        }
        let mut c2 = (**cfg).clone();
        c2.session = 2;
        let other = Arc::new(World::new(&Arc::new(c2), &BTreeMap::new())?);
        Ok(Arena { cfg: cfg.clone(), me, w0, alt, other })
    }

    pub fn combo(&self, ph: Phase) -> u8 {
        if ph.2 {
            N
        } else {
            self.cfg.shape(ph.0).rounds[&ph.1].combo
        }
    }

    pub fn body(&self, w: &World, from: u8, to: u8, ph: Phase) -> Body {
        if ph.2 {
            let entries =
                w.pack_keys(from, ph).into_iter().map(|k| (k, Ent::Is(w.val(ph.0, ph.1, E, k, BCAST)))).collect();
            Body::Pack { malformed: 0, entries }
        } else {
            Body::Main { rcv: w.rcv(from, to, ph), verdict: Verdict::Ok }
        }
    }

    fn name(&self, ph: Phase) -> String {
        self.cfg.round_name(ph.0, ph.1, ph.2)
    }

    pub fn good(&self, from: u8, ph: Phase) -> Option<Desc> {
        let msg = self.w0.msgs.get(&(from, self.me, ph))?.clone();
        Some(Desc {
            from,
            msg,
            label: format!("{}: good", self.name(ph)),
            meta_ok: true,
            session_ok: true,
            sig_ok: true,
            ph: Some(ph),
            body: self.body(&self.w0, from, self.me, ph),
        })
    }

    /// All good messages to the victim.
    pub fn all_good(&self) -> Vec<Desc> {
        let keys: BTreeSet<(u8, Phase)> =
            self.w0.msgs.keys().filter(|(_, to, _)| *to == self.me).map(|(f, _, p)| (*f, *p)).collect();
        keys.into_iter().map(|(f, p)| self.good(f, p).unwrap()).collect()
    }

    /// The phases in which `from` sends something to the victim.
    pub fn phases_of(&self, from: u8) -> Vec<Phase> {
        self.w0.msgs.keys().filter(|(f, to, _)| *to == self.me && *f == from).map(|(_, _, p)| *p).collect()
    }

    pub fn contents(&self, from: u8, ph: Phase) -> Parts {
        let m = &self.w0.msgs[&(from, self.me, ph)];
        let part = |k: u8| part_text(m, k).map(|t| unbase64(t.as_str().unwrap()));
        Parts { d: part(D), e: part(E), n: part(N) }
    }

    fn signed(&self, from: u8, rid: &RoundId, parts: &Parts, nonce: u64) -> Msg {
        sign(self.cfg.fmt, self.cfg.session, from, rid, parts, self.me, nonce)
    }

    /// A message of `g` for phase `ph`, if this kind of attack makes sense there.
    pub fn attack(&self, g: u8, ph: Phase, atk: Atk) -> Option<Desc> {
        let combo = self.combo(ph);
        let mut d = self.good(g, ph)?;
        d.label = format!("{}: {atk:?}", self.name(ph));
        let rid = self.w0.rids[&ph].clone();
        let nonce = 1000 + format!("{atk:?}").bytes().fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
        let alt = &self.alt[&g];
        let other_party = self.cfg.parties().into_iter().find(|p| *p != g && *p != self.me);
        let main = !ph.2;
        let other_phase = self.phases_of(g).into_iter().find(|p| *p != ph);
        let has = |k: u8| combo & k != 0;
        match atk {
            Atk::Alt => {
                d.msg = alt.msgs[&(g, self.me, ph)].clone();
                d.body = self.body(alt, g, self.me, ph);
            }
            Atk::Resigned => d.msg = self.signed(g, &rid, &self.contents(g, ph), nonce),
            Atk::SigSwap(k) => {
                let a = to_json(&alt.msgs[&(g, self.me, ph)]);
                if !has(k) {
                    // The content of an absent part is always the same; take the signature of another round.
                    let o = to_json(&self.w0.msgs[&(g, self.me, other_phase?)]);
                    d.msg = edit(&d.msg, |v| v[field(k)]["signature"] = o[field(k)]["signature"].clone());
                } else if main {
                    d.msg = edit(&d.msg, |v| v[field(k)]["signature"] = a[field(k)]["signature"].clone());
                } else {
                    let o = to_json(&self.other.msgs[&(g, self.me, ph)]);
                    d.msg = edit(&d.msg, |v| v[field(k)]["signature"] = o[field(k)]["signature"].clone());
                }
                d.sig_ok = false;
            }
            Atk::SigGarbage(k) => {
                d.msg = edit(&d.msg, |v| v[field(k)]["signature"] = json!("0x0011"));
                d.sig_ok = false;
            }
            Atk::OtherSession => {
                d.msg = self.other.msgs[&(g, self.me, ph)].clone();
                d.session_ok = false;
            }
            Atk::OtherSessionPart(k) => {
                d.msg = mix_parts(&d.msg, &self.other.msgs[&(g, self.me, ph)], k);
                d.meta_ok = false;
            }
            Atk::OtherRoundPart(k) => {
                d.msg = mix_parts(&d.msg, &self.w0.msgs[&(g, self.me, other_phase?)], k);
                d.meta_ok = false;
            }
            Atk::Relabel | Atk::RelabelSession => {
                let o = if atk == Atk::Relabel {
                    self.w0.msgs[&(g, self.me, other_phase?)].clone()
                } else {
                    self.other.msgs[&(g, self.me, ph)].clone()
                };
                let mine = to_json(&d.msg);
                d.msg = edit(&o, |v| {
                    for (_, f) in FIELDS {
                        v[f]["message_with_metadata"]["metadata"] = mine[f]["message_with_metadata"]["metadata"].clone();
                    }
                });
                d.sig_ok = false;
            }
            Atk::ContentSwap(k) => {
                if !has(k) || !main {
                    return None;
                }
                let a = to_json(&alt.msgs[&(g, self.me, ph)]);
                d.msg = edit(&d.msg, |v| {
                    v[field(k)]["message_with_metadata"]["message"] = a[field(k)]["message_with_metadata"]["message"].clone()
                });
                d.sig_ok = false;
            }
            Atk::RoleSwap(from, to) => {
                if !has(from) {
                    return None;
                }
                d.msg = edit(&d.msg, |v| v[field(to)] = v[field(from)].clone());
                d.sig_ok = false;
            }
            Atk::Undecodable(k) | Atk::UndecodableEmpty(k) | Atk::Missing(k) => {
                if !has(k) {
                    return None;
                }
                let mut parts = self.contents(g, ph);
                *parts.get_mut(k) = match atk {
                    Atk::Undecodable(_) => Some(vec![0xff, b'[', 0x80]),
                    Atk::UndecodableEmpty(_) => Some(vec![]),
                    _ => None,
                };
                d.msg = self.signed(g, &rid, &parts, nonce);
                d.body = malformed(d.body, k);
            }
            Atk::Extra(k) | Atk::ExtraEmpty(k) => {
                if has(k) {
                    return None;
                }
                let mut parts = self.contents(g, ph);
                *parts.get_mut(k) = Some(if atk == Atk::Extra(k) { b"{}".to_vec() } else { vec![] });
                d.msg = self.signed(g, &rid, &parts, nonce);
                d.body = malformed(d.body, k);
            }
            Atk::TagUnprov(k) | Atk::TagProv(k) | Atk::TagReq(k, _) | Atk::Stale(k) => {
                if !has(k) || !main {
                    return None;
                }
                let Body::Main { mut rcv, .. } = d.body.clone() else { unreachable!() };
                let val = match k {
                    D => &mut rcv.d,
                    E => &mut rcv.e,
                    _ => &mut rcv.n,
                }
                .as_mut()
                .unwrap();
                let verdict = match atk {
                    Atk::TagUnprov(_) => {
                        val.tag = TAG_UNPROVABLE;
                        Verdict::Unprov
                    }
                    Atk::TagReq(_, i) => {
                        val.tag = TAG_PROVABLE + i;
                        Verdict::Prov
                    }
                    Atk::TagProv(_) => {
                        val.tag = TAG_PROVABLE;
                        Verdict::Prov
                    }
                    _ => {
                        val.round = val.round.wrapping_add(1);
                        Verdict::Unprov
                    }
                };
                let mut parts = self.contents(g, ph);
                *parts.get_mut(k) = Some(encode(self.cfg.fmt, val.clone()));
                d.msg = self.signed(g, &rid, &parts, nonce);
                d.body = Body::Main { rcv, verdict };
            }
            Atk::WrongAddressee => {
                if !has(D) || !main {
                    return None;
                }
                let h = other_party?;
                d.msg = self.w0.msgs.get(&(g, h, ph))?.clone();
                d.body = Body::Main { rcv: self.w0.rcv(g, h, ph), verdict: Verdict::Unprov };
            }
            Atk::OfOther => {
                d.msg = self.w0.msgs.get(&(other_party?, self.me, ph))?.clone();
                d.sig_ok = false;
            }
            Atk::PartOfOther(k) => {
                d.msg = mix_parts(&d.msg, self.w0.msgs.get(&(other_party?, self.me, ph))?, k);
                d.sig_ok = false;
            }
            Atk::UnknownRound => {
                d.msg = self.signed(g, &RoundId::new(77), &self.contents(g, ph), nonce);
                d.ph = None;
            }
            _ => {
                if main || self.cfg.fmt != Fmt::Json {
                    return None;
                }
                let mph = (ph.0, ph.1, false);
                let mut entries: Vec<(u8, Entry)> = unpack(&d.msg);
                let mut map = match &d.body {
                    Body::Pack { entries, .. } => entries.clone(),
                    _ => unreachable!(),
                };
                // The entry to change: of a third party if there is one, of the victim otherwise.
                let t = entries.iter().map(|e| e.0).find(|k| *k != self.me).or(entries.iter().map(|e| e.0).next());
                let main_of = |w: &World, h: u8| -> Option<Msg> {
                    w.msgs.iter().find(|((f, _, p), _)| *f == h && *p == mph).map(|(_, m)| m.clone())
                };
                let set = |entries: &mut Vec<(u8, Entry)>, k: u8, f: &dyn Fn(&mut serde_json::Value)| {
                    let e = entries.iter_mut().find(|e| e.0 == k).unwrap();
                    let mut v = e.1.json();
                    f(&mut v);
                    e.1 = Entry::of(&v);
                };
                let mut broken = |map: &mut BTreeMap<u8, Ent>, t: u8| {
                    map.insert(t, Ent::Broken);
                };
                let mut dup = false;
                match atk {
                    Atk::PackMissing => {
                        let t = t?;
                        entries.retain(|e| e.0 != t);
                        map.remove(&t);
                    }
                    Atk::PackEmpty => {
                        t?;
                        entries.clear();
                        map.clear();
                    }
                    Atk::PackOwn => {
                        let m = main_of(&self.w0, g)?;
                        let h = self.w0.part_hash(&m, E)?;
                        entries.push((g, Entry::forge(&m, E, &h)));
                        entries.sort();
                        map.insert(g, Ent::Is(self.w0.val(ph.0, ph.1, E, g, BCAST)));
                    }
                    Atk::PackOutsider => {
                        let m = main_of(&self.w0, g)?;
                        let parts = Parts { d: None, e: self.contents_of(&m).e, n: None };
                        let o = sign(self.cfg.fmt, self.cfg.session, OUTSIDER, &self.w0.rids[&mph], &parts, self.me, 5);
                        let h = self.w0.part_hash(&m, E)?;
                        entries.push((OUTSIDER, Entry::forge(&o, E, &h)));
                        map.insert(OUTSIDER, Ent::Is(self.w0.val(ph.0, ph.1, E, g, BCAST)));
                    }
                    Atk::PackBrokenSig => {
                        let t = t?;
                        let o = unpack(self.other.msgs.get(&(g, self.me, ph))?);
                        let sig = o.iter().find(|e| e.0 == t)?.1.json()["signature"].clone();
                        set(&mut entries, t, &|v| v["signature"] = sig.clone());
                        broken(&mut map, t);
                    }
                    Atk::PackGarbageSig => {
                        let t = t?;
                        set(&mut entries, t, &|v| v["signature"] = json!("0x22"));
                        broken(&mut map, t);
                    }
                    Atk::PackOtherSession => {
                        let t = t?;
                        let o = unpack(self.other.msgs.get(&(g, self.me, ph))?);
                        let e = o.iter().find(|e| e.0 == t)?.1.json();
                        set(&mut entries, t, &|v| *v = e.clone());
                        broken(&mut map, t);
                    }
                    Atk::PackOtherRound => {
                        let t = t?;
                        // A broadcast of another round.
                        let (m, p) = self
                            .w0
                            .msgs
                            .iter()
                            .find(|((f, _, p), _)| *f == t && !p.2 && *p != mph && self.combo(*p) & E != 0)
                            .map(|((_, _, p), m)| (m.clone(), *p))?;
                        let _ = p;
                        let h = self.w0.part_hash(&m, E)?;
                        let e = Entry::forge(&m, E, &h).json();
                        set(&mut entries, t, &|v| *v = e.clone());
                        broken(&mut map, t);
                    }
                    Atk::PackRelabeled => {
                        let t = t?;
                        let o = unpack(self.other.msgs.get(&(g, self.me, ph))?);
                        let e = o.iter().find(|e| e.0 == t)?.1.json();
                        set(&mut entries, t, &|v| {
                            v["signature"] = e["signature"].clone();
                            v["message_part_hash"] = e["message_part_hash"].clone();
                        });
                        broken(&mut map, t);
                    }
                    Atk::PackOtherKind(k) => {
                        let t = t?;
                        let m = main_of(&self.w0, t)?;
                        part_text(&m, k)?;
                        let h = self.w0.part_hash(&m, k)?;
                        let e = Entry::forge(&m, k, &h).json();
                        set(&mut entries, t, &|v| *v = e.clone());
                        broken(&mut map, t);
                    }
                    Atk::PackOtherSigner => {
                        let t = t?;
                        let m = main_of(&self.w0, g)?;
                        let h = self.w0.part_hash(&m, E)?;
                        let e = Entry::forge(&m, E, &h).json();
                        set(&mut entries, t, &|v| *v = e.clone());
                        broken(&mut map, t);
                    }
                    Atk::PackHash => {
                        let t = t?;
                        set(&mut entries, t, &|v| v["message_part_hash"] = json!(format!("0x{}", "00".repeat(16))));
                        broken(&mut map, t);
                    }
                    Atk::PackDuplicate => {
                        t?;
                        let e = entries[0].clone();
                        entries.insert(0, e);
                        dup = true;
                    }
                    Atk::PackAlt => {
                        let t = entries.iter().map(|e| e.0).find(|k| *k != self.me && self.alt.contains_key(k))?;
                        let w = &self.alt[&t];
                        let o = unpack(w.msgs.get(&(g, self.me, ph))?);
                        let e = o.iter().find(|e| e.0 == t)?.1.json();
                        set(&mut entries, t, &|v| *v = e.clone());
                        map.insert(t, Ent::Is(w.val(ph.0, ph.1, E, t, BCAST)));
                    }
                    _ => unreachable!(),
                }
                let parts = Parts { d: None, e: None, n: Some(pack(&entries)) };
                d.msg = self.signed(g, &rid, &parts, nonce);
                d.body = Body::Pack { malformed: if dup { N } else { 0 }, entries: map };
            }
        }
        Some(d)
    }

    fn contents_of(&self, m: &Msg) -> Parts {
        let part = |k: u8| part_text(m, k).map(|t| unbase64(t.as_str().unwrap()));
        Parts { d: part(D), e: part(E), n: part(N) }
    }

    /// A good message of someone who is not expected to send anything.
    pub fn outsider(&self, ph: Phase) -> Option<Desc> {
        let g = self.w0.msgs.keys().find(|(_, to, p)| *to == self.me && *p == ph)?.0;
        let mut d = self.good(g, ph)?;
        d.msg = sign(self.cfg.fmt, self.cfg.session, OUTSIDER, &self.w0.rids[&ph], &self.contents(g, ph), self.me, 9);
        d.from = OUTSIDER;
        d.label = format!("{}: outsider", self.name(ph));
        if let Body::Main { verdict, .. } = &mut d.body {
            *verdict = Verdict::Unprov;
        }
        Some(d)
    }
    /// A good message of a party in a round in which it is not expected to send anything to the victim.
    pub fn uninvited(&self, from: u8, ph: Phase) -> Option<Desc> {
        let src = self.w0.msgs.keys().find(|(_, to, p)| *to == self.me && *p == ph)?.0;
        let mut d = self.good(src, ph)?;
        d.msg = sign(self.cfg.fmt, self.cfg.session, from, &self.w0.rids[&ph], &self.contents(src, ph), self.me, 9);
        d.from = from;
        d.label = format!("{}: uninvited", self.name(ph));
        if let Body::Main { verdict, .. } = &mut d.body {
            *verdict = Verdict::Unprov;
        }
        Some(d)
    }
    /// The victim's own message coming back.
    pub fn reflected(&self, ph: Phase) -> Option<Desc> {
        let ((_, to, _), msg) = self.w0.msgs.iter().find(|((f, _, p), _)| *f == self.me && *p == ph)?;
        Some(Desc {
            from: self.me,
            msg: msg.clone(),
            label: format!("{}: reflected", self.name(ph)),
            meta_ok: true,
            session_ok: true,
            sig_ok: true,
            ph: Some(ph),
            body: self.body(&self.w0, self.me, *to, ph),
        })
    }

    /// All good messages and the given ones. Only the listed senders repeat messages.
    pub fn sys(&self, extra: Vec<Desc>, repeating: &[u8]) -> Sys {
        let mut menu = self.all_good();
        menu.extend(extra);
        let mut s = Sys::new(&self.cfg, self.me, &self.w0, menu);
        s.once = s.menu.iter().map(|d| d.from).filter(|p| !repeating.contains(p)).collect();
        s
    }
}

fn malformed(b: Body, k: u8) -> Body {
    match b {
        Body::Main { rcv, .. } => Body::Main { rcv, verdict: Verdict::Malformed(k) },
        Body::Pack { entries, .. } => Body::Pack { malformed: k, entries },
    }
}

pub fn all_attacks() -> Vec<Atk> {
    let mut v = vec![Atk::Alt, Atk::Resigned, Atk::OtherSession, Atk::Relabel, Atk::RelabelSession];
    for k in [D, E, N] {
        v.extend([
            Atk::SigSwap(k),
            Atk::SigGarbage(k),
            Atk::OtherSessionPart(k),
            Atk::OtherRoundPart(k),
            Atk::ContentSwap(k),
            Atk::PartOfOther(k),
            Atk::Undecodable(k),
            Atk::Missing(k),
            Atk::Extra(k),
            Atk::UndecodableEmpty(k),
            Atk::ExtraEmpty(k),
            Atk::TagUnprov(k),
            Atk::TagProv(k),
            Atk::Stale(k),
        ]);
        for l in [D, E, N] {
            if k != l {
                v.push(Atk::RoleSwap(k, l));
            }
        }
    }
    v.extend([Atk::WrongAddressee, Atk::OfOther, Atk::UnknownRound]);
    v.extend([
        Atk::PackMissing,
        Atk::PackEmpty,
        Atk::PackOwn,
        Atk::PackOutsider,
        Atk::PackBrokenSig,
        Atk::PackGarbageSig,
        Atk::PackOtherSession,
        Atk::PackOtherRound,
        Atk::PackRelabeled,
        Atk::PackOtherKind(D),
        Atk::PackOtherKind(N),
        Atk::PackOtherSigner,
        Atk::PackHash,
        Atk::PackDuplicate,
        Atk::PackAlt,
    ]);
    v
}

/// The phases a message for which may reach the victim, from anyone.
pub fn phases_to(a: &Arena) -> BTreeSet<Phase> {
    let _ = phases(&a.cfg, a.me);
    a.w0.msgs.keys().filter(|(_, to, _)| *to == a.me).map(|(_, _, p)| *p).collect()
}
