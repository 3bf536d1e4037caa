//! The families of protocol shapes that are executed.
use std::collections::{BTreeMap, BTreeSet};

use crate::proto::*;

pub fn ids(n: u8) -> BTreeSet<u8> {
    (1..=n).collect()
}

pub fn set(v: &[u8]) -> BTreeSet<u8> {
    v.iter().copied().collect()
}

/// A linear protocol where everyone talks to everyone.
pub fn uniform(slot: u8, n: u8, combos: &[u8]) -> Shape {
    let last = combos.len() as u8;
    let rounds = combos
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let num = i as u8 + 1;
            let spec = RSpec {
                combo: *c,
                ti: if num == last { Ti::Terminating } else { Ti::Linear },
                comm: None,
                next: if num == last { Nx::Result } else { Nx::Round(num + 1) },
            };
            (num, spec)
        })
        .collect();
    Shape {
        name: format!("n{n} {}", combos.iter().map(|c| combo_name(*c)).collect::<Vec<_>>().join("-")),
        slot,
        parties: ids(n),
        rounds,
        reqs: Vec::new(),
        magic: 0x1000 + slot as u64,
        mis: BTreeMap::new(),
        ext: BTreeMap::new(),
        ext_mis: BTreeMap::new(),
        plain: false,
        entry: 1,
        ranks: BTreeMap::new(),
        pad: 0,
    }
}

pub fn combo_name(c: u8) -> String {
    let mut s = String::new();
    for (b, x) in [(D, 'D'), (E, 'E'), (N, 'N')] {
        if c & b != 0 {
            s.push(x);
        }
    }
    if s.is_empty() {
        s.push('0');
    }
    s
}

/// Communication where `senders` send to `receivers` (not to themselves).
pub fn between(parties: &BTreeSet<u8>, senders: &BTreeSet<u8>, receivers: &BTreeSet<u8>) -> BTreeMap<u8, Comm> {
    edges(parties, |a, b| senders.contains(&a) && receivers.contains(&b))
}

pub fn edges(parties: &BTreeSet<u8>, f: impl Fn(u8, u8) -> bool) -> BTreeMap<u8, Comm> {
    parties
        .iter()
        .map(|id| {
            let dests = parties.iter().copied().filter(|x| x != id && f(*id, *x)).collect();
            let expects = parties.iter().copied().filter(|x| x != id && f(*x, *id)).collect();
            (*id, Comm { dests, expects, echo: Part::Default })
        })
        .collect()
}

/// One group of parties sends, another one receives and exchanges echos.
pub fn partial_echo(parties: &BTreeSet<u8>, senders: &BTreeSet<u8>, receivers: &BTreeSet<u8>) -> BTreeMap<u8, Comm> {
    let mut m = between(parties, senders, receivers);
    for (id, c) in m.iter_mut() {
        c.echo = match (senders.contains(id), receivers.contains(id)) {
            (true, false) => Part::Send,
            (false, true) => {
                let mut t = receivers.clone();
                t.remove(id);
                Part::Receive(t)
            }
            _ => Part::Default,
        };
    }
    m
}

impl Shape {
    pub fn plain(mut self) -> Shape {
        self.plain = true;
        self
    }
    pub fn named(mut self, name: &str) -> Shape {
        self.name = name.into();
        self
    }
    pub fn with_comm(mut self, round: u8, comm: BTreeMap<u8, Comm>) -> Shape {
        self.rounds.get_mut(&round).unwrap().comm = Some(comm);
        self
    }
    pub fn with_next(mut self, round: u8, next: Nx) -> Shape {
        self.rounds.get_mut(&round).unwrap().next = next;
        self
    }
    pub fn with_ti(mut self, round: u8, ti: Ti) -> Shape {
        self.rounds.get_mut(&round).unwrap().ti = ti;
        self
    }
    pub fn with_mis(mut self, party: u8, round: u8, kind: u8, tag: u8) -> Shape {
        self.mis.insert((party, round, kind), tag);
        self.name += &format!(", {party} offends in part {} of round {round} ({tag})", combo_name(kind));
        self
    }
    pub fn with_reqs(mut self, reqs: Vec<Req>) -> Shape {
        self.reqs = reqs;
        self
    }
}

/// Linear shapes with restricted communication.
pub fn special(n: u8) -> Vec<Shape> {
    let all = ids(n);
    let mut v = Vec::new();
    let first = set(&[1]);
    let rest: BTreeSet<u8> = all.iter().copied().filter(|x| *x != 1).collect();
    let last = set(&[n]);
    let butlast: BTreeSet<u8> = all.iter().copied().filter(|x| *x != n).collect();
    for combo in [D, E, N, D | E, E | N, D | E | N] {
        let c = combo_name(combo);
        let comm = |s: &BTreeSet<u8>, r: &BTreeSet<u8>| {
            if combo & E != 0 {
                partial_echo(&all, s, r)
            } else {
                between(&all, s, r)
            }
        };
        // A leader sends, the others answer.
        v.push(
            uniform(0, n, &[combo, combo])
                .with_comm(1, comm(&first, &rest))
                .with_comm(2, comm(&rest, &first))
                .named(&format!("n{n} leader {c}-{c}")),
        );
        if combo & E == 0 {
            v.push(
                uniform(0, n, &[combo, combo, combo])
                    .with_comm(2, edges(&all, |a, b| b == a % n + 1))
                    .named(&format!("n{n} ring in the middle {c}-{c}-{c}")),
            );
        }
        v.push(
            uniform(0, n, &[combo, N])
                .with_comm(1, comm(&butlast, &all))
                .named(&format!("n{n} all receive, one does not send {c}-N")),
        );
        v.push(
            uniform(0, n, &[combo, E])
                .with_comm(1, comm(&all, &last))
                .named(&format!("n{n} only one receives {c}-E")),
        );
        v.push(
            uniform(0, n, &[N, combo, D])
                .with_comm(2, comm(&rest, &rest))
                .named(&format!("n{n} a subset exchanges N-{c}-D")),
        );
        if combo & E != 0 && n >= 3 {
            // The receivers also send to the leader, who does not take part in the echo round.
            let mut c = comm(&first, &rest);
            c.get_mut(&1).unwrap().expects = rest.clone();
            for x in &rest {
                c.get_mut(x).unwrap().dests = first.clone();
            }
            v.push(
                uniform(0, n, &[combo, D])
                    .with_comm(1, c)
                    .named(&format!("n{n} leader with answers {c0}-D", c0 = combo_name(combo))),
            );
        }
        if n >= 4 {
            let s = set(&[1, 2]);
            let r: BTreeSet<u8> = all.iter().copied().filter(|x| *x >= 2).collect();
            v.push(
                uniform(0, n, &[combo, D])
                    .with_comm(1, comm(&s, &r))
                    .named(&format!("n{n} overlapping senders and receivers {c}-D")),
            );
        }
    }
    // A round without any communication in the middle and at the end.
    let silent = between(&all, &set(&[]), &set(&[]));
    v.push(uniform(0, n, &[D, 0, N]).with_comm(2, silent.clone()).named(&format!("n{n} silent middle")));
    v.push(uniform(0, n, &[E, D, E]).with_comm(2, silent.clone()).named(&format!("n{n} silent middle between echo rounds")));
    v.push(uniform(0, n, &[D | E, N]).with_comm(2, silent).named(&format!("n{n} silent end")));
    v
}

/// Shapes where nodes take different paths through the round graph.
pub fn branching(n: u8) -> Vec<Shape> {
    let all = ids(n);
    let mut v = Vec::new();
    let low: BTreeSet<u8> = all.iter().copied().filter(|x| *x <= n.div_ceil(2)).collect();
    let high: BTreeSet<u8> = all.iter().copied().filter(|x| !low.contains(x)).collect();
    for (c1, c2, c3, c4) in [(D, D, N, D), (E, N, D, N), (N, E, E, E), (D | E, D | E, N, D | N)] {
        // Round 1 branches into 2 or 3, both join in 4. In 2 and 3, nodes send to all, and expect from their own branch.
        for cross in [false, true] {
            let mut s = uniform(0, n, &[c1, c2, c3, c4]);
            s = s
                .with_ti(1, Ti::Custom { parents: vec![], siblings: vec![], children: vec![2, 3], result: false })
                .with_ti(2, Ti::Custom { parents: vec![1], siblings: vec![3], children: vec![4], result: false })
                .with_ti(3, Ti::Custom { parents: vec![1], siblings: vec![2], children: vec![4], result: false })
                .with_ti(4, Ti::Custom { parents: vec![2, 3], siblings: vec![], children: vec![], result: true });
            let path = all.iter().map(|id| (*id, Nx::Round(if low.contains(id) { 2 } else { 3 }))).collect();
            s = s.with_next(1, Nx::PerNode(path)).with_next(2, Nx::Round(4)).with_next(3, Nx::Round(4));
            for (r, group, other) in [(2u8, &low, &high), (3u8, &high, &low)] {
                let combo = s.rounds[&r].combo;
                let mut m = between(&all, group, group);
                if combo & E == 0 && cross {
                    // The other branch gets messages too, which it does not expect.
                    for (id, c) in m.iter_mut() {
                        if group.contains(id) {
                            c.dests.extend(other.iter().copied());
                        }
                    }
                }
                s = s.with_comm(r, m);
            }
            if cross && c2 & E != 0 && c3 & E != 0 {
                continue;
            }
            s.name = format!(
                "n{n} branching {}-{{{},{}}}-{}{}",
                combo_name(c1),
                combo_name(c2),
                combo_name(c3),
                combo_name(c4),
                if cross { " crossing" } else { "" }
            );
            v.push(s);
        }
        // Everyone takes the second branch.
        let mut s = uniform(0, n, &[c1, c2, c3, c4]);
        s = s
            .with_ti(1, Ti::LinearWith { children: vec![3], siblings: vec![] })
            .with_ti(2, Ti::LinearWith { children: vec![4], siblings: vec![3] })
            .with_ti(3, Ti::Custom { parents: vec![1], siblings: vec![2], children: vec![4], result: false })
            .with_ti(4, Ti::Custom { parents: vec![2, 3], siblings: vec![], children: vec![], result: true })
            .with_next(1, Nx::Round(3))
            .with_next(3, Nx::Round(4));
        s.name = format!("n{n} second branch {}-{}-{}", combo_name(c1), combo_name(c3), combo_name(c4));
        v.push(s);
    }
    v
}

/// Other numbers of rounds, in the same order.
pub fn spread(n: u8) -> u8 {
    [0, 3, 16, 17, 128, 255][n as usize]
}

/// Other numbers of rounds, in another order.
pub fn jumbled(n: u8) -> u8 {
    [7, 255, 9, 100, 1, 0][n as usize]
}

/// Shapes where nodes take different paths, which end in results.
pub fn forks(n: u8) -> Vec<Shape> {
    let all = ids(n);
    let mut v = Vec::new();
    let low: BTreeSet<u8> = all.iter().copied().filter(|x| *x <= n.div_ceil(2)).collect();
    let high: BTreeSet<u8> = all.iter().copied().filter(|x| !low.contains(x)).collect();
    for (c1, c2, c3) in [(D, D, N), (E, N, D), (N, E, D), (D | E, N, D | E), (N, E | N, E)] {
        for cross in [false, true] {
            let mut s = uniform(0, n, &[c1, c2, c3]);
            s = s
                .with_ti(1, Ti::Custom { parents: vec![], siblings: vec![], children: vec![2, 3], result: false })
                .with_ti(2, Ti::Custom { parents: vec![1], siblings: vec![3], children: vec![], result: true })
                .with_ti(3, Ti::Custom { parents: vec![1], siblings: vec![2], children: vec![], result: true });
            let path = all.iter().map(|id| (*id, Nx::Round(if low.contains(id) { 2 } else { 3 }))).collect();
            s = s.with_next(1, Nx::PerNode(path)).with_next(2, Nx::Result).with_next(3, Nx::Result);
            for (r, group, other) in [(2u8, &low, &high), (3u8, &high, &low)] {
                let combo = s.rounds[&r].combo;
                let mut m = between(&all, group, group);
                if combo & E == 0 && cross {
                    // The other branch gets messages too, which it does not expect.
                    for (id, c) in m.iter_mut() {
                        if group.contains(id) {
                            c.dests.extend(other.iter().copied());
                        }
                    }
                }
                s = s.with_comm(r, m);
            }
            s.name = format!("n{n} fork {}-{{{},{}}}{}", combo_name(c1), combo_name(c2), combo_name(c3), if cross { " crossing" } else { "" });
            v.push(s);
        }
    }
    v
}
