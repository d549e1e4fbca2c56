//! Monitor for tick-driven behaviour (C23): what a server sends during one tick, against what its
//! configured timeouts and the messages exchanged so far call for.
use crate::entry::TestEntry;
use crate::sim::*;
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::messages::ballot_leader_election::HeartbeatMsg;
use omnipaxos::messages::sequence_paxos::PaxosMsg;
use omnipaxos::messages::Message;
use omnipaxos::util::SequenceNumber;

#[derive(Clone, Debug, Default)]
pub struct Tm {
    /// set when the server was started and its first messages were not collected yet
    pub started: bool,
    /// 0 nothing awaited, 1 an answer to its promise, 2 an answer to its recovery request
    pub wait: u8,
    pub lead_n: Option<Ballot>,
    /// per server: 0 has not answered the leadership request, 1 promised, 2 refused
    pub peer: Vec<u8>,
    /// per server: last acknowledged index in the current leadership
    pub acked: Vec<usize>,
    pub seq: SequenceNumber,
    /// entries accepted into the batch and not yet in storage
    pub pending: i64,
    pub added: i64,
    pub in_tick: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct Pre {
    accept: bool,
    promise: Ballot,
    len: usize,
    stop: bool,
}

impl<T: TestEntry> Sim<T> {
    pub fn tm_pre(&self, i: usize) -> Option<Pre> {
        if !self.timers {
            return None;
        }
        let op = self.nodes[i].op.as_ref()?;
        let g = self.nodes[i].store.0.borrow();
        Some(Pre {
            accept: op.get_current_leader().map(|x| x.1).unwrap_or(false),
            promise: op.get_promise(),
            len: g.ghost.accepted() - g.ghost.stopsign.is_some() as usize,
            stop: g.ghost.stopsign.is_some(),
        })
    }

    pub fn tm_start(&mut self, i: usize) {
        let n = self.n;
        let nd = &mut self.nodes[i];
        nd.tm = Tm {
            started: true,
            wait: if nd.incarnation > 1 { 2 } else { 0 },
            peer: vec![0; n],
            acked: vec![0; n],
            ..Default::default()
        };
    }

    /// after every call
    pub fn tm_post(&mut self, i: usize, pre: Option<Pre>) {
        let (pre, post) = match (pre, self.tm_pre(i)) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        let n = self.n;
        let leads = self.tm_leads(i);
        let batch = self.cfg.batch as i64;
        let nd = &mut self.nodes[i];
        let mut bad = None;
        let mut full = false;
        if post.promise != pre.promise && post.promise.pid == nd.pid {
            nd.tm.lead_n = Some(post.promise);
            nd.tm.peer = vec![0; n];
            nd.tm.acked = vec![0; n];
        }
        if pre.accept && post.accept && pre.promise == post.promise {
            if nd.tm.added > 0 && !pre.stop && !post.stop {
                let (total, stored) = (nd.tm.pending + nd.tm.added, post.len as i64 - pre.len as i64);
                if total >= batch && stored < total {
                    bad = Some(format!("server {} still holds entries of a full batch ({} of {}, batch size {})", nd.pid, total - stored, total, batch));
                } else if total < batch && stored > 0 && leads {
                    bad = Some(format!("server {} sends its batch of {} though the batch size is {}", nd.pid, total, batch));
                }
                full = total >= batch && batch > 1;
            }
            nd.tm.pending = (nd.tm.pending + nd.tm.added + pre.len as i64 - post.len as i64).max(0);
        } else {
            nd.tm.pending = 0;
        }
        nd.tm.added = 0;
        if full {
            self.stats.inc("tm_full_batch");
        }
        if let Some(m) = bad {
            self.viol("timer", m);
        }
    }

    pub fn tm_leads(&self, i: usize) -> bool {
        let nd = &self.nodes[i];
        match &nd.op {
            Some(op) => nd.tm.lead_n == Some(op.get_promise()),
            None => false,
        }
    }

    /// before an append at i
    pub fn tm_append(&mut self, i: usize) {
        if let Some(p) = self.tm_pre(i) {
            self.nodes[i].tm.added = (self.tm_leads(i) && p.accept && !p.stop) as i64;
        }
    }

    /// before a message from a is handled by b
    pub fn tm_in(&mut self, a: usize, b: usize, m: &Message<T>) {
        let pre = match self.tm_pre(b) {
            Some(p) => p,
            None => return,
        };
        let leads = self.tm_leads(b);
        let tm = &mut self.nodes[b].tm;
        tm.added = 0;
        if let Message::SequencePaxos(p) = m {
            match &p.msg {
                PaxosMsg::Promise(x) if leads && x.n == pre.promise => tm.peer[a] = 1,
                PaxosMsg::PrepareReq(x) if leads && x.n <= pre.promise => tm.peer[a] = 0,
                PaxosMsg::NotAccepted(x) if leads && x.n > pre.promise => tm.peer[a] = 2,
                PaxosMsg::Accepted(x) if leads && pre.accept && x.n == pre.promise => tm.acked[a] = x.accepted_idx,
                PaxosMsg::ProposalForward(e) if leads && pre.accept && !pre.stop => tm.added = e.len() as i64,
                PaxosMsg::AcceptSync(x) if !leads && !pre.accept && x.n == pre.promise => tm.seq = x.seq_num,
                PaxosMsg::AcceptDecide(_) | PaxosMsg::AcceptStopSign(_) | PaxosMsg::Decide(_) => {
                    let (n, s, k) = match &p.msg {
                        PaxosMsg::AcceptDecide(x) => (x.n, x.seq_num, x.entries.len()),
                        PaxosMsg::AcceptStopSign(x) => (x.n, x.seq_num, 0),
                        PaxosMsg::Decide(x) => (x.n, x.seq_num, 0),
                        _ => unreachable!(),
                    };
                    if !leads && pre.accept && n == pre.promise && s.session == tm.seq.session && s.counter == tm.seq.counter + 1 {
                        tm.seq = s;
                        tm.added = k as i64;
                    }
                }
                _ => (),
            }
        }
    }

    /// newly collected outgoing messages
    pub fn tm_out(&mut self, i: usize, from: usize) {
        if !self.timers || !self.alive(i) {
            return;
        }
        let promise = self.nodes[i].op.as_ref().unwrap().get_promise();
        let pid = self.nodes[i].pid;
        let mut hb = vec![0usize; self.n];
        let mut wait = self.nodes[i].tm.wait;
        for m in &self.pend[i][from..] {
            let to = match self.idx_of(m.get_receiver()) {
                Some(t) => t,
                None => continue,
            };
            match m {
                Message::BLE(b) => {
                    if let HeartbeatMsg::Request(_) = b.msg {
                        hb[to] += 1;
                    }
                }
                Message::SequencePaxos(p) => match &p.msg {
                    PaxosMsg::Promise(_) => wait = 1,
                    PaxosMsg::PrepareReq(_) if m.get_receiver() == promise.pid => wait = 2,
                    _ => (),
                },
            }
        }
        self.nodes[i].tm.wait = wait;
        if !self.nodes[i].tm.in_tick {
            let want = self.nodes[i].tm.started as usize;
            self.nodes[i].tm.started = false;
            for p in 0..self.n {
                if p != i && hb[p] != want {
                    self.viol("timer", format!("server {} sends {} heartbeat requests to {} outside of ticks, expected {}", pid, hb[p], self.nodes[p].pid, want));
                    return;
                }
            }
        }
    }

    pub fn tick_monitored(&mut self, i: usize) {
        if !self.collect(i) {
            return;
        }
        let had = self.pend[i].len();
        let pre = match self.tm_pre(i) {
            Some(p) => p,
            None => return,
        };
        let tm0 = self.nodes[i].tm.clone();
        let pid = self.nodes[i].pid;
        let t = self.nodes[i].ticks;
        self.nodes[i].tm.in_tick = true;
        let ok = self.call(i, |op| op.tick()).is_some() && self.collect(i);
        self.nodes[i].tm.in_tick = false;
        if !ok {
            return;
        }
        let post = match self.tm_pre(i) {
            Some(p) => p,
            None => return,
        };
        let n = self.n;
        let (mut hb, mut prep, mut prom, mut preq, mut accss) = (vec![0; n], vec![0; n], vec![0; n], vec![0; n], vec![0; n]);
        let mut acked_at = None;
        for m in &self.pend[i][had..] {
            let to = match self.idx_of(m.get_receiver()) {
                Some(x) => x,
                None => return,
            };
            match m {
                Message::BLE(b) => {
                    if let HeartbeatMsg::Request(_) = b.msg {
                        hb[to] += 1;
                    }
                }
                Message::SequencePaxos(p) => match &p.msg {
                    PaxosMsg::Prepare(_) => prep[to] += 1,
                    PaxosMsg::Promise(_) => prom[to] += 1,
                    PaxosMsg::PrepareReq(_) => preq[to] += 1,
                    PaxosMsg::AcceptStopSign(_) => accss[to] += 1,
                    PaxosMsg::Accepted(a) => acked_at = Some(a.accepted_idx),
                    _ => (),
                },
            }
        }
        let fire = |timeout: u64| timeout != 0 && t % timeout == 0;
        let (elect, resend, flush) = (fire(self.cfg.elect), fire(self.cfg.resend), fire(self.cfg.flush));
        let campaign = post.promise != pre.promise;
        let leads = self.tm_leads(i);
        let mut bad: Vec<String> = vec![];
        if campaign && !elect {
            bad.push("campaigns although no heartbeat round ended".into());
        }
        let accepted = post.len + post.stop as usize;
        let ss_decided = post.stop && self.nodes[i].decided == accepted;
        for p in 0..n {
            if p == i {
                continue;
            }
            let who = self.nodes[p].pid;
            let mut want = |name: &str, got: usize, lo: usize, hi: usize| {
                if got < lo || got > hi {
                    bad.push(format!("sends {} {} to {}, expected {}", got, name, who, if lo == hi { lo.to_string() } else { format!("{} to {}", lo, hi) }));
                }
            };
            want("heartbeat requests", hb[p], elect as usize, elect as usize);
            if leads {
                let st = if campaign { 0 } else { tm0.peer[p] };
                let c = campaign as usize;
                match st {
                    0 => want("leadership requests", prep[p], c + resend as usize, c + resend as usize),
                    1 => want("leadership requests", prep[p], c, c),
                    _ => want("leadership requests", prep[p], c, c + resend as usize),
                }
                want("promises", prom[p], 0, 0);
                want("recovery requests", preq[p], 0, 0);
                if !campaign && pre.accept && post.accept && post.stop && !ss_decided && st == 1 {
                    let x = (resend && tm0.acked[p] != accepted) as usize;
                    want("reconfigurations", accss[p], x, x);
                } else {
                    let x = (resend && post.stop) as usize;
                    want("reconfigurations", accss[p], 0, x);
                }
            } else {
                want("leadership requests", prep[p], 0, 0);
                want("reconfigurations", accss[p], 0, 0);
                if pre.accept {
                    want("promises", prom[p], 0, 0);
                    want("recovery requests", preq[p], 0, 0);
                } else {
                    let x = (resend && tm0.wait == 1 && who == pre.promise.pid) as usize;
                    want("promises", prom[p], x, x);
                    let x = (resend && tm0.wait == 2) as usize;
                    want("recovery requests", preq[p], x, x);
                }
            }
        }
        if leads && resend {
            self.stats.inc("tm_resend_leader");
        }
        if !leads && resend && !pre.accept && tm0.wait != 0 {
            self.stats.inc("tm_resend_follower");
        }
        if leads && resend && accss.iter().any(|x| *x > 0) {
            self.stats.inc("tm_resend_reconf");
        }
        if !campaign && !flush && post.len != pre.len {
            bad.push(format!("stores {} batched entries although the flush timeout did not fire", post.len as i64 - pre.len as i64));
        }
        if flush && !campaign && pre.accept {
            if tm0.pending > 0 {
                self.stats.inc("tm_flushed");
            }
            if self.nodes[i].tm.pending > 0 {
                bad.push(format!("still holds {} batched entries after the flush timeout", self.nodes[i].tm.pending));
            }
            if !leads && post.len > pre.len && acked_at != Some(accepted) {
                bad.push(format!("acknowledges {:?} after flushing up to {}", acked_at, accepted));
            }
        }
        if let Some(b) = bad.first() {
            self.viol(
                "timer",
                format!(
                    "server {} at tick {} (election {}, resend {}, flush {}; leads {}, accept phase {}, awaits {}, answers {:?}, acked {:?}/{}): {}",
                    pid, t, self.cfg.elect, self.cfg.resend, self.cfg.flush, leads, pre.accept, tm0.wait, tm0.peer, tm0.acked, accepted, b
                ),
            );
        }
    }
}
