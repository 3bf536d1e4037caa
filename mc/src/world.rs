//! Honest executions from which menus of messages are taken.
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::sync::Arc;

use manul::protocol::RoundId;

use crate::adv::*;
use crate::local::*;
use crate::node::*;
use crate::proto::*;
use crate::sp::*;

pub type Phase = (u8, u8, bool);

/// Everything that happened in an undisturbed execution in which every party acts as soon as it can.
pub struct World {
    pub cfg: Arc<Cfg>,
    pub msgs: BTreeMap<(u8, u8, Phase), Msg>,
    pub rids: BTreeMap<Phase, RoundId>,
    pub vals: HashMap<(u8, u8, u8, u8, u8), Val>,
    pub reports: BTreeMap<u8, Rep>,
    pub hashes: Vec<(Vec<u8>, Vec<u8>)>,
}

impl World {
    pub fn new(cfg: &Arc<Cfg>, variants: &BTreeMap<u8, u64>) -> Result<World, String> {
        World::over(cfg, variants, None)
    }

    /// All messages are serialized and deserialized on their way.
    pub fn over(cfg: &Arc<Cfg>, variants: &BTreeMap<u8, u64>, wire: Option<Fmt>) -> Result<World, String> {
        let (w, hashes) = with_hash_log(|| World::run(cfg, variants, wire));
        let mut w = w?;
        w.hashes = hashes;
        Ok(w)
    }

    fn run(cfg: &Arc<Cfg>, variants: &BTreeMap<u8, u64>, wire: Option<Fmt>) -> Result<World, String> {
        struct P {
            node: Option<Box<dyn NodeDyn>>,
            phases: Vec<Phase>,
            at: usize,
            inbox: VecDeque<(u8, Msg)>,
        }
        let mut w = World {
            cfg: cfg.clone(),
            msgs: BTreeMap::new(),
            rids: BTreeMap::new(),
            vals: HashMap::new(),
            reports: BTreeMap::new(),
            hashes: Vec::new(),
        };
        let ids: Vec<u8> = cfg.parties().into_iter().collect();
        let mut ps: BTreeMap<u8, P> = BTreeMap::new();
        let mut outbox: Vec<(u8, u8, Msg)> = Vec::new();
        let err = |id: u8, f: Fail| format!("node {id} {f}");
        for id in &ids {
            let mut node = make_node(cfg, *id, variants.get(id).copied().unwrap_or(0)).map_err(|f| err(*id, f))?;
            let ph = phases(cfg, *id);
            w.rids.insert(ph[0], node.round_id());
            for (to, m) in node.make_all().map_err(|f| err(*id, f))? {
                w.msgs.insert((*id, to, ph[0]), m.clone());
                outbox.push((*id, to, m));
            }
            ps.insert(*id, P { node: Some(node), phases: ph, at: 0, inbox: VecDeque::new() });
        }
        let mut round = 0;
        loop {
            for (from, to, m) in outbox.drain(..) {
                if let Some(p) = ps.get_mut(&to) {
                    p.inbox.push_back((from, m));
                }
            }
            let mut acted = false;
            for (id, p) in &mut ps {
                let e = |f: Fail| err(*id, f);
                while p.node.is_some() {
                    let node = p.node.as_mut().unwrap();
                    if let Some((from, m)) = p.inbox.pop_front() {
                        acted = true;
                        let m = match wire {
                            None => m,
                            Some(Fmt::Json) => serde_json::from_slice(&encode(Fmt::Json, m)).map_err(|e| e.to_string())?,
                            Some(Fmt::Bin) => postcard::from_bytes(&encode(Fmt::Bin, m)).map_err(|e| e.to_string())?,
                        };
                        match node.pre(from, m).map_err(e)? {
                            Pre::ToProcess(i) => node.process_add(i).map_err(e)?,
                            Pre::Cached => {}
                            Pre::Error(x) => return Err(format!("node {id} rejects the message of {from}: {x}")),
                        }
                        continue;
                    }
                    match node.can_finalize().map_err(e)? {
                        Cf::Yes => {}
                        Cf::NotYet => break,
                        Cf::Never => return Err(format!("node {id} can never finalize")),
                    }
                    acted = true;
                    for v in node.obs().made.lock().unwrap().iter() {
                        w.vals.insert((v.slot, v.round, v.kind, v.from, v.to), v.clone());
                    }
                    match p.node.take().unwrap().finalize().map_err(e)? {
                        Fin::Done(rep) => {
                            w.reports.insert(*id, rep);
                        }
                        Fin::Next { mut node, cached } => {
                            p.at += 1;
                            let ph = *p.phases.get(p.at).ok_or("unexpected round")?;
                            w.rids.insert(ph, node.round_id());
                            for (_, i) in cached {
                                node.process_add(i).map_err(e)?;
                            }
                            for (to, m) in node.make_all().map_err(e)? {
                                w.msgs.insert((*id, to, ph), m.clone());
                                outbox.push((*id, to, m));
                            }
                            p.node = Some(node);
                        }
                    }
                }
            }
            round += 1;
            if !acted || round > 1000 {
                break;
            }
        }
        if w.reports.len() != ids.len() {
            return Err(format!("only {:?} finish", w.reports.keys().collect::<Vec<_>>()));
        }
        Ok(w)
    }

    /// The hash of the content of a part, found among the evaluations of the hash function.
    pub fn part_hash(&self, msg: &Msg, kind: u8) -> Option<String> {
        part_hash_in(&self.hashes, msg, kind)
    }

    /// The senders of which `from`'s pack contains echo broadcasts.
    pub fn pack_keys(&self, from: u8, ph: Phase) -> BTreeSet<u8> {
        self.cfg.shape(ph.0).comm(ph.1, from).expects
    }
    pub fn val(&self, slot: u8, round: u8, kind: u8, from: u8, to: u8) -> Val {
        self.vals[&(slot, round, kind, from, to)].clone()
    }
    /// What the message of `from` to `to` contains.
    pub fn rcv(&self, from: u8, to: u8, ph: Phase) -> Rcv {
        let combo = self.cfg.shape(ph.0).rounds[&ph.1].combo;
        let part = |k: u8| (combo & k != 0).then(|| self.val(ph.0, ph.1, k, from, if k == D { to } else { BCAST }));
        Rcv { d: part(D), e: part(E), n: part(N) }
    }
}

/// The hash of the content of a part, found among the given evaluations of the hash function.
pub fn part_hash_in(hashes: &[(Vec<u8>, Vec<u8>)], msg: &Msg, kind: u8) -> Option<String> {
    let v = to_json(msg);
    let from_sig = v[field(kind)]["signature"].as_str()?;
    let text = part_text(msg, kind)?;
    let content = unbase64(text.as_str()?);
    let contains = |hay: &[u8], needle: &[u8]| hay.windows(needle.len()).any(|w| w == needle);
    // A hash of something containing the content whose output is in turn part of something hashed.
    for (input, output) in hashes {
        if contains(input, &content)
            && hashes.iter().any(|(i2, _)| contains(i2, output) && !contains(i2, &content))
            && input.len() < content.len() + 64
        {
            let hex = "0x".to_string() + &output.iter().map(|b| format!("{b:02x}")).collect::<String>();
            // Parts of different kinds could have equal contents; `Val` contains the kind, so that they do not.
            let _ = from_sig;
            return Some(hex);
        }
    }
    None
}
