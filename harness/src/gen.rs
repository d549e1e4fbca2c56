//! State-adaptive generator of histories.
use crate::entry::TestEntry;
use crate::rng::Rng;
use crate::sim::*;
use crate::store::FaultMode;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum EpiSel {
    None,
    Heal,
    Partial,
    Stable,
    Trim,
    Gap,
}

/// what a property check wants to see generated
#[derive(Clone)]
pub struct Prof {
    pub name: &'static str,
    /// None: either entry kind
    pub entry: Option<Kind>,
    pub epi: &'static [EpiSel],
    pub max_n: usize,
    pub flex: bool,
    pub gaps: bool,
    pub rocks: bool,
    pub transport: bool,
    pub ui: bool,
    // base weights of operation classes
    pub append: u32,
    pub tick: u32,
    pub run: u32,
    pub pump: u32,
    pub net: u32,
    pub drop: u32,
    pub link: u32,
    pub reconn: u32,
    pub crash: u32,
    pub arm: u32,
    pub compact: u32,
    pub reconf: u32,
    pub badreconf: u32,
    pub elect: u32,
    pub prio: u32,
    pub read: u32,
    pub expect: u32,
    pub collect: u32,
    pub mac: u32,
    pub len: (usize, usize),
    pub batch: bool,
    /// start with an election in an undisturbed cluster
    pub fresh: bool,
    pub long_elect: bool,
    /// lose messages only: no cuts, partitions or crashes from macros
    pub soft: bool,
    /// a wide range of timeouts, including a disabled flush timeout
    pub timers: bool,
    /// more servers, and mostly histories with messages that arrive late
    pub late: bool,
    /// no long stretches
    pub short: bool,
}

pub const BASE: Prof = Prof {
    name: "base",
    entry: None,
    epi: &[EpiSel::None, EpiSel::Heal],
    max_n: 7,
    flex: true,
    gaps: true,
    rocks: false,
    transport: false,
    ui: false,
    append: 14,
    tick: 4,
    run: 8,
    pump: 8,
    net: 24,
    drop: 4,
    link: 6,
    reconn: 2,
    crash: 4,
    arm: 2,
    compact: 3,
    reconf: 1,
    badreconf: 0,
    elect: 5,
    prio: 1,
    read: 0,
    expect: 0,
    collect: 1,
    mac: 10,
    len: (20, 90),
    batch: true,
    fresh: false,
    long_elect: false,
    soft: false,
    timers: false,
    late: false,
    short: false,
};

pub fn gen_cfg(p: &Prof, rng: &mut Rng) -> Cfg {
    let n = match rng.weighted(if p.late { &[0, 4, 6, 10, 1] } else { &[3, 21, 3, 9, 2] }) {
        0 => 2,
        1 => 3,
        2 => 4,
        3 => 5,
        _ => rng.range(6, 7),
    }
    .min(p.max_n);
    let mut pids: Vec<u64> = (1..=n as u64).collect();
    if p.gaps && rng.chance(1, 6) {
        let mut all: Vec<u64> = if rng.chance(1, 4) { vec![1, 2, 3, 10, 32, 64, 100, 128, 255, 256, 257, 300] } else { (1..=9).collect() };
        rng.shuffle(&mut all);
        pids = all[..n].to_vec();
        if rng.chance(1, 2) {
            pids.sort();
        }
    }
    let flex = if p.flex && rng.chance(1, 4) {
        let mut o = vec![];
        for r in 2..=n {
            for w in 2..=r {
                if r + w > n {
                    o.push((r, w));
                }
            }
        }
        Some(*rng.pick(&o))
    } else {
        None
    };
    let entry = match p.entry {
        Some(k) => k,
        None => {
            if rng.chance(1, 2) {
                Kind::V
            } else {
                Kind::S
            }
        }
    };
    let batch = if p.batch {
        match rng.weighted(&[5, 3, 1]) {
            0 => 1,
            1 => rng.range(2, 5),
            _ => *rng.pick(&[50, 50, 12, 130]),
        }
    } else {
        1
    };
    let elect = if p.long_elect {
        rng.range(10, 40) as u64
    } else {
        rng.range(1, if p.timers { 9 } else { 4 }) as u64
    };
    let epi = match *rng.pick(p.epi) {
        EpiSel::None => Epi::None,
        EpiSel::Heal => Epi::Heal,
        EpiSel::Stable => Epi::Stable,
        EpiSel::Trim => Epi::Trim,
        EpiSel::Gap => Epi::Gap,
        EpiSel::Partial => Epi::Partial(gen_graph(n, rng)),
    };
    let flex = if matches!(epi, Epi::Partial(_)) { None } else { flex };
    Cfg {
        entry,
        flex,
        batch,
        buffer: *rng.pick(&[1, 2, 10, 1000]),
        elect,
        resend: rng.range(1, if p.timers { 14 } else { 8 }) as u64,
        flush: if p.timers { rng.range(0, 11) as u64 } else { rng.range(1, 5) as u64 },
        prio: (0..n)
            .map(|_| {
                if rng.chance(2, 3) {
                    0
                } else if rng.chance(1, 20) {
                    *rng.pick(&[100, 255, 256, 70000, u32::MAX - 1, u32::MAX])
                } else {
                    rng.below(4) as u32
                }
            })
            .collect(),
        config_id: if rng.chance(1, 20) { *rng.pick(&[10, 255, 256, 65536, 1 << 31]) } else { rng.range(1, 3) as u32 },
        transport: if p.transport { rng.below(3) as u8 } else { 0 },
        backend: if p.rocks && cfg!(feature = "rocks") { 1 } else { 0 },
        epi,
        ui: p.ui,
        pids,
    }
}

/// a symmetric graph with at least one quorum-connected server
pub fn gen_graph(n: usize, rng: &mut Rng) -> Vec<u32> {
    let mut adj = vec![0u32; n];
    let c = rng.below(n);
    let need = n / 2;
    let mut others: Vec<usize> = (0..n).filter(|x| *x != c).collect();
    rng.shuffle(&mut others);
    for o in others.iter().take(need) {
        adj[c] |= 1 << o;
        adj[*o] |= 1 << c;
    }
    let den = rng.range(2, 6) as u32;
    for a in 0..n {
        for b in 0..a {
            if rng.chance(1, den) {
                adj[a] |= 1 << b;
                adj[b] |= 1 << a;
            }
        }
    }
    adj
}

pub struct Gen<'a, T: TestEntry> {
    pub sim: Sim<T>,
    pub ops: Vec<Op>,
    pub rng: &'a mut Rng,
    pub next_id: u64,
    /// bursts of appends still to come
    pub bulk: u32,
    p: &'a Prof,
    aux_pool: u32,
    steered: u32,
    steering: bool,
}

impl<'a, T: TestEntry> Gen<'a, T> {
    pub fn new(cfg: &Cfg, p: &'a Prof, rng: &'a mut Rng, enabled: &'static [&'static str]) -> Self {
        let aux_pool = *rng.pick(&[2u32, 5, 12, 40]);
        Gen {
            sim: Sim::new(cfg, enabled),
            ops: vec![],
            rng,
            next_id: 1,
            bulk: 0,
            p,
            aux_pool,
            steered: 0,
            steering: false,
        }
    }

    fn emit(&mut self, op: Op) {
        if self.sim.violation.is_some() {
            return;
        }
        let before = self.sim.stats.get("other_tag");
        self.sim.exec(&op);
        self.ops.push(op);
        // A monitor of another property noticed something: try what could make it visible for ours.
        // On a tree without defects this never happens.
        if self.sim.stats.get("other_tag") > before && self.steered < 4 && !self.steering && !self.p.soft && self.p.mac > 0 {
            self.steered += 1;
            self.steering = true;
            self.steer();
            self.steering = false;
        }
    }

    fn steer(&mut self) {
        match self.rng.below(6) {
            0 | 1 | 2 => self.fork(),
            3 | 4 => {
                let n = self.n();
                for i in 0..n {
                    if self.rng.chance(1, 3) {
                        self.emit(Op::Crash(i));
                        if self.rng.chance(2, 3) {
                            let k = self.rng.chance(1, 2);
                            self.emit(Op::Restart(i, k));
                        }
                    }
                }
                self.fork();
            }
            _ => (),
        }
    }

    fn n(&self) -> usize {
        self.sim.n
    }
    fn node(&mut self) -> usize {
        let n = self.n();
        self.rng.below(n)
    }
    fn pair(&mut self) -> (usize, usize) {
        let n = self.n();
        let a = self.rng.below(n);
        let b = (a + 1 + self.rng.below(n - 1)) % n;
        (a, b)
    }
    fn seed(&mut self) -> u64 {
        self.rng.next() >> 40
    }

    /// a running server that believes to lead, the one with the highest ballot preferred
    fn leader(&mut self) -> Option<usize> {
        let mut best: Option<usize> = None;
        for i in 0..self.n() {
            if !self.sim.alive(i) || self.sim.nodes[i].promise.pid != self.sim.nodes[i].pid {
                continue;
            }
            if best.map(|b| self.sim.nodes[b].promise < self.sim.nodes[i].promise).unwrap_or(true) {
                best = Some(i);
            }
        }
        best
    }

    fn busy_link(&mut self) -> Option<(usize, usize)> {
        let n = self.n();
        let v: Vec<(usize, usize)> = (0..n * n)
            .filter(|l| !self.sim.links[*l].is_empty())
            .map(|l| (l / n, l % n))
            .collect();
        if v.is_empty() {
            None
        } else {
            Some(*self.rng.pick(&v))
        }
    }

    fn append(&mut self, i: usize, k: usize) {
        for _ in 0..k {
            let id = self.next_id;
            self.next_id += 1;
            let aux = self.rng.below(self.aux_pool as usize) as u32;
            self.emit(Op::Append(i, id, aux));
        }
    }

    /// counters beyond a byte: rounds, messages of a session, ballots, sessions
    fn stretch(&mut self) {
        let p = &self.p;
        let w = [p.run, p.append, p.elect, p.reconn].map(|x| (x > 0) as u32);
        if w == [0; 4] {
            return;
        }
        let kind = self.rng.weighted(&w);
        let i = match self.leader() {
            Some(l) if kind == 1 && self.rng.chance(4, 5) => l,
            _ => self.node(),
        };
        let k = self.rng.range(200, 600);
        let id = self.next_id;
        match kind {
            0 => {
                let s = self.seed();
                self.emit(Op::Run(k, s));
            }
            _ => {
                self.next_id += k as u64;
                self.emit(Op::Stretch(i, id, k, kind as u8 - 1));
            }
        }
    }

    fn some_append(&mut self) {
        let i = match self.leader() {
            Some(l) if self.rng.chance(3, 5) => l,
            _ => self.node(),
        };
        if self.bulk > 0 && self.rng.chance(1, 4) {
            // a long log: lengths around powers of two and beyond one batch
            self.bulk -= 1;
            let top = *self.rng.pick(&[20, 70, 140, 300, 300, 700]);
            let k = self.rng.range(top / 2, top);
            let id = self.next_id;
            self.next_id += k as u64;
            self.emit(Op::Bulk(i, id, k));
            return;
        }
        let k = *self.rng.pick(&[1, 1, 1, 2, 3, 6]);
        self.append(i, k);
    }

    fn compact(&mut self) {
        let i = match self.leader() {
            Some(l) if self.rng.chance(3, 5) => l,
            _ => self.node(),
        };
        let (c, d) = (self.sim.nodes[i].compacted, self.sim.nodes[i].decided);
        let idx = match self.rng.below(6) {
            0 | 1 => None,
            2 => Some(d),
            3 if d > c => Some(self.rng.range(c, d)),
            4 => Some(d + self.rng.below(3)),
            _ => {
                let m = (0..self.n())
                    .map(|k| self.sim.nodes[k].store.0.borrow().ghost.accepted())
                    .min()
                    .unwrap();
                Some(self.rng.range(0, m.max(1)))
            }
        };
        if T::SNAP {
            let local = self.rng.chance(1, 2);
            self.emit(Op::Snapshot(i, idx, local));
        } else {
            self.emit(Op::Trim(i, idx));
        }
    }

    fn read(&mut self) {
        let i = self.node();
        let total = self.sim.nodes[i].store.0.borrow().ghost.accepted();
        let (c, d) = (self.sim.nodes[i].compacted, self.sim.nodes[i].decided);
        let pos = |g: &mut Self| -> usize {
            let anchors = [0, c, d, total];
            match g.rng.below(3) {
                0 => g.rng.below(total + 3),
                _ => {
                    let a = *g.rng.pick(&anchors) + g.rng.below(3);
                    a.saturating_sub(g.rng.below(3))
                }
            }
        };
        let s = pos(self);
        let e = pos(self);
        let (s, e) = if self.rng.chance(3, 4) { (s.min(e), s.max(e)) } else { (s, e) };
        let sk = *self.rng.pick(&[0u8, 0, 0, 1, 2]);
        let ek = *self.rng.pick(&[0u8, 0, 0, 1, 2]);
        self.emit(Op::Read(i, sk, s, ek, e));
    }

    fn clique(&self, set: &[usize]) -> Vec<u32> {
        let mut adj = vec![0u32; self.sim.n];
        for a in set {
            for b in set {
                if a != b {
                    adj[*a] |= 1 << b;
                }
            }
        }
        adj
    }

    fn subset(&mut self, with: usize, size: usize) -> Vec<usize> {
        let mut o: Vec<usize> = (0..self.n()).filter(|x| *x != with).collect();
        self.rng.shuffle(&mut o);
        let mut s = vec![with];
        s.extend(o.into_iter().take(size.saturating_sub(1)));
        s
    }

    /// partially deliver what is under way among the given links
    fn scatter(&mut self, k: usize) {
        for _ in 0..k {
            if let Some((a, b)) = self.busy_link() {
                let m = *self.rng.pick(&[1, 1, 2, 5]);
                self.emit(Op::Deliver(a, b, m));
                if self.rng.chance(1, 2) {
                    self.emit(Op::Flush(b));
                }
            }
        }
    }

    fn elect_on(&mut self, v: usize, set: &[usize], cut: bool) {
        if cut {
            let adj = self.clique(set);
            if self.rng.chance(1, 3) {
                self.emit(Op::Slow(adj));
            } else {
                self.emit(Op::Partition(adj));
            }
        }
        for x in set {
            if !self.sim.alive(*x) {
                let k = self.rng.chance(1, 2);
                self.emit(Op::Restart(*x, k));
            }
        }
        self.emit(Op::TryLeader(v));
        if self.rng.chance(2, 3) {
            let s = self.seed();
            self.emit(Op::Pump(s));
        } else {
            self.emit(Op::Flush(v));
            let k = self.rng.range(2, 8);
            self.scatter(k);
        }
    }

    /// leader sends its new entries to some followers only
    fn partial_replicate(&mut self, l: usize, acks: bool) {
        let k = self.rng.range(1, 3);
        self.append(l, k);
        self.emit(Op::Flush(l));
        for f in 0..self.n() {
            if f == l {
                continue;
            }
            match self.rng.below(3) {
                0 => self.emit(Op::Deliver(l, f, 20)),
                1 => {
                    self.emit(Op::Deliver(l, f, 20));
                    if acks {
                        self.emit(Op::FlushDeliver(f, l, 20));
                    } else if self.rng.chance(1, 2) {
                        self.emit(Op::Flush(f));
                    }
                }
                _ => {
                    if self.rng.chance(1, 2) {
                        self.emit(Op::DropAll(l, f));
                    }
                }
            }
        }
    }

    fn heal(&mut self) {
        let notify = self.rng.chance(2, 3);
        self.emit(Op::HealAll(notify));
    }

    fn any_leader(&mut self) -> usize {
        match self.leader() {
            Some(l) => l,
            None => {
                let v = self.node();
                let size = self.n();
                let set = self.subset(v, size);
                self.emit(Op::HealAll(true));
                self.elect_on(v, &set, false);
                v
            }
        }
    }

    /// a read quorum that knows as little as possible of what was decided goes on by itself
    fn fork(&mut self) {
        let n = self.n();
        let mut o: Vec<usize> = (0..n).collect();
        self.rng.shuffle(&mut o);
        o.sort_by_key(|i| self.sim.nodes[*i].match_len);
        let set: Vec<usize> = o.into_iter().take(self.sim.rq.min(n)).collect();
        let v = *set.iter().max_by_key(|i| self.sim.nodes[**i].promise).unwrap();
        let all = vec![(1u32 << n) - 1; n];
        self.emit(Op::Slow(all));
        let adj = self.clique(&set);
        self.emit(Op::Partition(adj));
        for x in &set {
            if !self.sim.alive(*x) {
                let k = self.rng.chance(1, 2);
                self.emit(Op::Restart(*x, k));
            }
        }
        self.emit(Op::TryLeader(v));
        self.emit(Op::TryLeader(v));
        let s = self.seed();
        self.emit(Op::Pump(s));
        self.append(v, 1);
        let s = self.seed();
        self.emit(Op::Pump(s));
        if self.rng.chance(1, 2) {
            self.heal();
            let s = self.seed();
            self.emit(Op::Pump(s));
        }
    }

    /// two servers lead in turn on quorums of their own while messages between others stay under way,
    /// which then arrive one after the other
    fn stale(&mut self) {
        let n = self.n();
        let rq = self.sim.rq;
        let l = match self.leader() {
            Some(l) => l,
            None => self.any_leader(),
        };
        let v = (l + 1 + self.rng.below(n - 1)) % n;
        // slow links into l
        let all = (1u32 << n) - 1;
        let mut adj: Vec<u32> = vec![all; n];
        for a in 0..n {
            if a != l && self.rng.chance(1, 2) {
                adj[a] &= !(1 << l);
            }
        }
        self.emit(Op::Slow(adj));
        let k = self.rng.range(1, 3);
        self.append(l, k);
        if self.rng.chance(1, 2) {
            let s = self.seed();
            self.emit(Op::Pump(s));
        } else {
            self.partial_replicate(l, false);
        }
        let turns = self.rng.range(1, 3);
        for t in 0..turns {
            let who = if t % 2 == 0 { v } else { l };
            if self.rng.chance(1, 4) {
                continue;
            }
            let size = self.rng.range(rq.min(n), n);
            let set = self.subset(who, size);
            let adj = self.clique(&set);
            self.emit(Op::Slow(adj));
            if self.rng.chance(1, 2) {
                self.emit(Op::TryLeader(who));
            }
            self.emit(Op::TryLeader(who));
            let s = self.seed();
            self.emit(Op::Pump(s));
            match self.rng.below(4) {
                0 => (),
                1 => {
                    self.append(who, 1);
                    self.emit(Op::Flush(who));
                }
                2 => {
                    // kept to itself
                    self.emit(Op::Slow(vec![0; n]));
                    let k = self.rng.range(1, 2);
                    self.append(who, k);
                    self.emit(Op::Flush(who));
                }
                _ => self.partial_replicate(who, true),
            }
        }
        let size = self.rng.range(rq.min(n), n);
        let set = self.subset(l, size);
        let adj = self.clique(&set);
        self.emit(Op::Slow(adj));
        self.emit(Op::TryLeader(l));
        if self.rng.chance(1, 2) {
            self.emit(Op::TryLeader(l));
        }
        if self.rng.chance(2, 3) {
            let s = self.seed();
            self.emit(Op::Pump(s));
        } else {
            self.emit(Op::Flush(l));
        }
        if self.rng.chance(1, 2) {
            self.append(l, 1);
            self.emit(Op::Flush(l));
        }
        let k = self.rng.range(3, 14);
        self.scatter(k);
        if self.rng.chance(1, 3) {
            self.fork();
        } else if self.rng.chance(1, 2) {
            let all = vec![(1u32 << n) - 1; n];
            self.emit(Op::Slow(all));
            let s = self.seed();
            self.emit(Op::Pump(s));
        }
    }

    fn macro_step(&mut self) {
        let n = self.n();
        let (rq, _wq) = (self.sim.rq, self.sim.wq);
        let pick = if self.p.late && self.rng.chance(2, 3) {
            11
        } else if self.p.soft {
            *self.rng.pick(&[1usize, 5, 5, 20, 21])
        } else {
            self.rng.below(15)
        };
        match pick {
            20 => {
                let v = self.node();
                let set: Vec<usize> = (0..n).collect();
                self.elect_on(v, &set, false);
            }
            // lose a message of a synchronisation
            21 => {
                let v = self.node();
                self.emit(Op::TryLeader(v));
                self.emit(Op::Flush(v));
                let f = (v + 1 + self.rng.below(n - 1)) % n;
                let stage = self.rng.below(3);
                if stage == 0 {
                    self.emit(Op::DropAll(v, f));
                } else {
                    self.emit(Op::Deliver(v, f, 20));
                    self.emit(Op::Flush(f));
                    if stage == 1 {
                        self.emit(Op::DropAll(f, v));
                    } else {
                        self.emit(Op::Deliver(f, v, 20));
                        self.emit(Op::Flush(v));
                        self.emit(Op::DropAll(v, f));
                    }
                }
                if self.rng.chance(1, 2) {
                    self.append(v, 1);
                }
                let s = self.seed();
                self.emit(Op::Pump(s));
            }
            0 => {
                let v = self.node();
                let size = self.rng.range(rq.min(n), n);
                let set = self.subset(v, size);
                self.elect_on(v, &set, true);
            }
            1 => {
                let l = self.any_leader();
                let acks = self.rng.chance(1, 2);
                self.partial_replicate(l, acks);
            }
            // lagging server, compaction meanwhile, lagging server takes over
            2 | 3 => {
                let l = self.any_leader();
                let f = (l + 1 + self.rng.below(n - 1)) % n;
                let rest: Vec<usize> = (0..n).filter(|x| *x != f).collect();
                let adj = self.clique(&rest);
                let crash = self.rng.chance(1, 3);
                if self.rng.chance(1, 3) {
                    self.partial_replicate(l, true);
                }
                if crash {
                    self.emit(Op::Crash(f));
                } else {
                    self.emit(Op::Partition(adj));
                }
                let k = self.rng.range(1, 5);
                self.append(l, k);
                let s = self.seed();
                self.emit(Op::Pump(s));
                if self.p.compact > 0 {
                    self.compact();
                    if self.rng.chance(1, 2) {
                        let s = self.seed();
                        self.emit(Op::Pump(s));
                    }
                }
                if self.rng.chance(1, 2) {
                    let k = self.rng.range(1, 3);
                    self.append(l, k);
                    if self.rng.chance(1, 2) {
                        self.emit(Op::Flush(l));
                    }
                }
                if crash {
                    self.emit(Op::Restart(f, true));
                }
                self.heal();
                if self.rng.chance(1, 2) {
                    self.emit(Op::TryLeader(f));
                }
                if self.rng.chance(2, 3) {
                    let s = self.seed();
                    self.emit(Op::Pump(s));
                } else {
                    self.emit(Op::Flush(f));
                    self.emit(Op::Flush(l));
                    let k = self.rng.range(2, 8);
                    self.scatter(k);
                }
            }
            // leader crashes after replicating partially, another one takes over
            4 => {
                let l = self.any_leader();
                self.partial_replicate(l, false);
                self.emit(Op::Crash(l));
                let v = (l + 1 + self.rng.below(n - 1)) % n;
                let set: Vec<usize> = (0..n).filter(|x| *x != l).collect();
                self.elect_on(v, &set, false);
                if self.rng.chance(1, 2) {
                    self.append(v, 1);
                    let s = self.seed();
                    self.emit(Op::Pump(s));
                }
                if self.rng.chance(2, 3) {
                    let k = self.rng.chance(1, 2);
                    self.emit(Op::Restart(l, k));
                    self.heal();
                    if self.rng.chance(1, 2) {
                        let s = self.seed();
                        self.emit(Op::Pump(s));
                    }
                }
            }
            // lose one message of the leader and carry on
            5 => {
                let l = self.any_leader();
                let f = (l + 1 + self.rng.below(n - 1)) % n;
                self.append(l, 1);
                self.emit(Op::Flush(l));
                let k = self.rng.range(1, 2);
                self.emit(Op::DropHead(l, f, k));
                let k = self.rng.range(1, 2);
                self.append(l, k);
                self.emit(Op::Flush(l));
                self.emit(Op::Deliver(l, f, 1));
                if self.rng.chance(1, 2) {
                    let s = self.seed();
                    self.emit(Op::Pump(s));
                }
            }
            // partially replicated reconfiguration
            6 if self.p.reconf > 0 => {
                let l = self.any_leader();
                if self.rng.chance(1, 2) {
                    let k = self.rng.range(1, 2);
                    self.append(l, k);
                }
                let r = self.rng.below(60) as u32;
                self.emit(Op::Reconf(l, r));
                self.partial_replicate(l, true);
                if self.rng.chance(1, 2) {
                    let v = (l + 1 + self.rng.below(n - 1)) % n;
                    let size = self.rng.range(rq.min(n), n);
                    let set = self.subset(v, size);
                    let cut = self.rng.chance(1, 2);
                    self.elect_on(v, &set, cut);
                    self.append(v, 1);
                    if self.rng.chance(1, 3) {
                        self.emit(Op::Reconf(v, r / 2));
                    }
                }
            }
            // isolated old leader diverges while the others go on
            7 | 8 => {
                let l = self.any_leader();
                let rest: Vec<usize> = (0..n).filter(|x| *x != l).collect();
                let v = *self.rng.pick(&rest);
                let adj = self.clique(&rest);
                self.emit(Op::Partition(adj));
                let k = self.rng.range(1, 3);
                self.append(l, k);
                self.emit(Op::Flush(l));
                self.elect_on(v, &rest, false);
                let k = self.rng.range(0, 3);
                self.append(v, k);
                if self.rng.chance(2, 3) {
                    let s = self.seed();
                    self.emit(Op::Pump(s));
                } else {
                    self.partial_replicate(v, true);
                }
                self.heal();
                if self.rng.chance(1, 2) {
                    self.elect_on(l, &[l], false);
                }
                let s = self.seed();
                self.emit(Op::Pump(s));
            }
            // a chain of short-lived leaders, each replicating to a different subset
            9 | 10 => {
                let k = self.rng.range(2, 4);
                for _ in 0..k {
                    let v = self.node();
                    let set = self.subset(v, rq.min(n));
                    self.elect_on(v, &set, true);
                    self.partial_replicate(v, false);
                    if self.rng.chance(1, 4) {
                        self.emit(Op::Crash(v));
                    }
                }
            }
            // messages of earlier rounds arrive late at a server that leads again
            11 | 12 => self.stale(),
            13 => self.fork(),
            _ => {
                // crash a server in the middle of synchronisation
                let f = self.node();
                let w = self.rng.range(1, 4) as u64;
                if self.p.arm > 0 {
                    let m = *self.rng.pick(&[FaultMode::CrashBefore, FaultMode::CrashAfter, FaultMode::Err]);
                    self.emit(Op::Arm(f, w, m));
                }
                let v = self.node();
                let set: Vec<usize> = (0..n).collect();
                self.elect_on(v, &set, false);
                self.append(v, 2);
                let s = self.seed();
                self.emit(Op::Pump(s));
                self.emit(Op::Restart(f, true));
            }
        }
    }

    fn step(&mut self, w: &[u32]) {
        let n = self.n();
        match self.rng.weighted(w) {
            0 => self.some_append(),
            1 => {
                let i = self.node();
                if self.rng.chance(1, 12) {
                    let from = self.node();
                    let top = self.sim.nodes.iter().map(|x| x.promise.n as usize).max().unwrap_or(0) + 4;
                    let b = (self.rng.below(3) as u32, self.rng.below(top) as u32, self.rng.below(top) as u32);
                    let (d, happy) = (self.rng.below(2) as u32, self.rng.chance(1, 2));
                    self.emit(Op::Foreign(i, from, d, b, happy));
                }
                self.emit(Op::Tick(i));
            }
            2 => {
                let k = self.rng.range(1, (self.sim.cfg.elect as usize).min(8) + 2);
                let s = self.seed();
                self.emit(Op::Run(k, s));
            }
            3 => {
                let s = self.seed();
                self.emit(Op::Pump(s));
            }
            4 => match self.rng.below(3) {
                0 => {
                    let i = self.node();
                    self.emit(Op::Flush(i));
                }
                1 => {
                    let (a, b) = match self.busy_link() {
                        Some(l) => l,
                        None => self.pair(),
                    };
                    let k = *self.rng.pick(&[1, 1, 2, 4, 20]);
                    self.emit(Op::Deliver(a, b, k));
                }
                _ => {
                    let (a, b) = self.pair();
                    let k = *self.rng.pick(&[1, 2, 4, 20]);
                    self.emit(Op::FlushDeliver(a, b, k));
                }
            },
            5 => {
                let (a, b) = match self.busy_link() {
                    Some(l) => l,
                    None => self.pair(),
                };
                if self.rng.chance(2, 3) {
                    let k = self.rng.range(1, 2);
                    self.emit(Op::DropHead(a, b, k));
                } else {
                    self.emit(Op::DropAll(a, b));
                }
            }
            6 => match self.rng.below(7) {
                0 | 1 => {
                    let (a, b) = self.pair();
                    self.emit(Op::Cut(a, b));
                    if self.rng.chance(1, 2) {
                        self.emit(Op::Cut(b, a));
                    }
                }
                2 => {
                    let (a, b) = self.pair();
                    let nt = self.rng.chance(2, 3);
                    self.emit(Op::Heal(a, b, nt));
                    self.emit(Op::Heal(b, a, nt));
                }
                3 | 4 => self.heal(),
                5 => {
                    let adj = if self.rng.chance(1, 2) {
                        (0..n).map(|_| self.rng.below(1 << n) as u32).collect()
                    } else {
                        vec![(1u32 << n) - 1; n]
                    };
                    self.emit(Op::Slow(adj));
                }
                _ => {
                    let adj = if self.rng.chance(1, 2) {
                        gen_graph(n, self.rng)
                    } else {
                        let v = self.node();
                        let k = self.rng.range(1, n);
                        let set = self.subset(v, k);
                        self.clique(&set)
                    };
                    self.emit(Op::Partition(adj));
                }
            },
            7 => {
                let (a, b) = self.pair();
                // reporting the connection to itself means nothing
                let b = if self.rng.chance(1, 12) { a } else { b };
                self.emit(Op::Reconnected(a, b));
            }
            8 => {
                let down: Vec<usize> = (0..n).filter(|i| !self.sim.alive(*i)).collect();
                if !down.is_empty() && self.rng.chance(2, 3) {
                    let i = *self.rng.pick(&down);
                    let k = self.rng.chance(1, 2);
                    self.emit(Op::Restart(i, k));
                } else {
                    let i = match self.leader() {
                        Some(l) if self.rng.chance(1, 3) => l,
                        _ => self.node(),
                    };
                    self.emit(Op::Crash(i));
                    if self.rng.chance(1, 3) {
                        let k = self.rng.chance(1, 2);
                        self.emit(Op::Restart(i, k));
                    }
                }
            }
            9 => {
                let i = self.node();
                let k = self.rng.range(1, 6) as u64;
                let m = *self.rng.pick(&[FaultMode::CrashBefore, FaultMode::CrashAfter, FaultMode::Err]);
                self.emit(Op::Arm(i, k, m));
            }
            10 => self.compact(),
            11 => {
                let i = match self.leader() {
                    Some(l) if self.rng.chance(1, 2) => l,
                    _ => self.node(),
                };
                let k = self.rng.below(60) as u32;
                self.emit(Op::Reconf(i, k));
            }
            12 => {
                let i = self.node();
                let k = self.rng.below(60) as u32;
                self.emit(Op::BadReconf(i, k));
            }
            13 => {
                let i = self.node();
                self.emit(Op::TryLeader(i));
            }
            14 => {
                let i = self.node();
                let p = self.rng.below(4) as u32;
                self.emit(Op::Prio(i, p));
            }
            15 => self.read(),
            16 => match self.rng.below(5) {
                4 => {
                    let i = self.node();
                    let p = if self.rng.chance(1, 8) { u32::MAX } else { self.rng.below(6) as u32 };
                    self.emit(Op::Heal2);
                    self.emit(Op::ExpectPrio(i, p));
                }
                0 => {
                    let k = (self.sim.cfg.elect as usize) * 10;
                    self.emit(Op::ExpectStable(k));
                }
                1 => {
                    let i = self.node();
                    self.emit(Op::Heal2);
                    self.emit(Op::ExpectTakeover(i));
                }
                2 => {
                    self.emit(Op::Heal2);
                    self.emit(Op::ExpectFailover);
                }
                _ => {
                    self.emit(Op::Heal2);
                    self.emit(Op::ExpectStable(30));
                }
            },
            17 => {
                let i = self.node();
                self.emit(Op::Collect(i));
            }
            _ => self.macro_step(),
        }
    }

    pub fn run(&mut self, size: f64) {
        let p = self.p.clone();
        let base = [
            p.append, p.tick, p.run, p.pump, p.net, p.drop, p.link, p.reconn, p.crash, p.arm,
            p.compact, p.reconf, p.badreconf, p.elect, p.prio, p.read, p.expect, p.collect, p.mac,
        ];
        // swarm: every class is scaled individually, some are switched off
        let mut w: Vec<u32> = base
            .iter()
            .map(|b| b * *self.rng.pick(&[0u32, 1, 2, 2, 3, 6]))
            .collect();
        for (i, k) in [(0usize, 4u32), (4, 4), (3, 2)] {
            w[i] = w[i].max(base[i] * k / 4);
        }
        let len = (self.rng.range(p.len.0, p.len.1) as f64 * size) as usize;
        if self.rng.chance(1, 100) {
            self.bulk = self.rng.range(1, 2) as u32;
        }
        if p.fresh || self.rng.chance(1, 4) {
            if p.append > 0 && self.rng.chance(1, 2) {
                let last = 1 + 3 * self.sim.cfg.elect as usize;
                let many = self.rng.chance(1, 100);
                let k = if many { self.rng.range(30, 200) } else { self.rng.range(1, 5) };
                let (r0, v0) = (self.rng.range(0, last), self.node());
                for _ in 0..k {
                    let id = self.next_id;
                    self.next_id += 1;
                    let (r, v) = if many { (r0, v0) } else { (self.rng.range(0, last), self.node()) };
                    self.emit(Op::Early(r, v, id));
                }
            }
            if p.reconf > 0 && p.fresh && self.rng.chance(1, 3) {
                let last = 1 + 3 * self.sim.cfg.elect as usize;
                let (r, v, k) = (self.rng.range(0, last), self.node(), self.rng.below(60) as u32);
                self.emit(Op::EarlyReconf(r, v, k));
            }
            self.emit(Op::ExpectFresh);
        } else if self.rng.chance(2, 3) {
            let v = self.node();
            let set: Vec<usize> = (0..self.n()).collect();
            self.elect_on(v, &set, false);
        }
        let len = len + self.ops.len().saturating_sub(10);
        let mut stretch = if !p.short && self.rng.chance(1, 2500) { self.rng.range(0, len) } else { usize::MAX };
        while self.ops.len() < len && self.sim.violation.is_none() {
            if self.ops.len() >= stretch {
                self.stretch();
                stretch = usize::MAX;
            }
            self.step(&w);
        }
        if p.mac > 0 && !p.soft && self.rng.chance(1, 3) {
            self.fork();
        }
    }
}
