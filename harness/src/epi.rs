//! Epilogues: bounded-time progress oracles run at the end of (or inside) a history.
use crate::entry::TestEntry;
use crate::sim::*;
use omnipaxos::ballot_leader_election::Ballot;

/// generous bound, in rounds (every server ticks once per round), for one election plus one
/// synchronisation
pub fn bound<T: TestEntry>(s: &Sim<T>) -> usize {
    let spread = {
        let ns: Vec<u32> = s.nodes.iter().map(|n| n.promise.n).collect();
        (ns.iter().max().unwrap() - ns.iter().min().unwrap()) as usize
    };
    (s.cfg.elect as usize) * (16 + 2 * s.n + 2 * spread) + 6 * s.cfg.resend as usize + 4 * s.cfg.flush as usize + 10
}

/// the leader every running server of `who` follows in the replication phase
fn common_leader<T: TestEntry>(s: &mut Sim<T>, who: &[usize]) -> Option<usize> {
    let mut l = None;
    for i in who {
        let c = s.nodes[*i].op.as_ref()?.get_current_leader()?;
        let b = s.nodes[*i].op.as_ref()?.get_promise();
        if !c.1 {
            return None;
        }
        match l {
            None => l = Some(b),
            Some(x) if x == b => (),
            _ => return None,
        }
    }
    let pid = l?.pid;
    let i = s.idx_of(pid)?;
    if who.contains(&i) {
        Some(i)
    } else {
        None
    }
}

/// run until `cond` holds for `hold` consecutive rounds, at most `max` rounds
fn run_until<T: TestEntry>(
    s: &mut Sim<T>,
    max: usize,
    hold: usize,
    seed: u64,
    mut cond: impl FnMut(&mut Sim<T>) -> bool,
) -> bool {
    let mut ok = 0;
    for r in 0..max {
        if s.violation.is_some() {
            return false;
        }
        if cond(s) {
            ok += 1;
            if ok > hold {
                return true;
            }
        } else {
            ok = 0;
        }
        s.round(seed.wrapping_mul(31).wrapping_add(r as u64));
    }
    s.violation.is_none() && cond(s)
}

fn status<T: TestEntry>(s: &Sim<T>) -> String {
    let mut o = String::new();
    for nd in &s.nodes {
        let g = nd.store.0.borrow();
        let gh = &g.ghost;
        o += &format!(
            "[{} {} leader {:?} promise {:?} acc {:?} log {} ss {} dec {} comp {}]",
            nd.pid,
            if nd.op.is_some() { "up" } else { "down" },
            nd.op.as_ref().and_then(|o| o.get_current_leader()),
            bkey(&nd.promise),
            gh.acc.map(|b| bkey(&b)),
            gh.end(),
            gh.stopsign.is_some() as u8,
            gh.decided,
            gh.compacted
        );
    }
    o
}

fn all_decided<T: TestEntry>(s: &Sim<T>, who: &[usize], ids: &[u64]) -> bool {
    let stopped = matches!(s.glog.last(), Some(GE::SS(_)));
    let need = if stopped {
        s.glog.len()
    } else {
        let mut need = 0;
        for id in ids {
            match s.decided_ids.get(id) {
                Some(i) => need = need.max(i + 1),
                None => return false,
            }
        }
        need
    };
    who.iter().all(|i| s.nodes[*i].decided >= need)
}

fn level<T: TestEntry>(s: &Sim<T>) -> bool {
    let d = s.glog.len();
    s.nodes.iter().all(|n| {
        let acc = n.store.0.borrow().ghost.accepted();
        n.decided == d && acc == d
    })
}

/// Heal everything; require a common leader and that appends at every server get decided
/// everywhere. Returns the leader.
pub fn heal<T: TestEntry>(s: &mut Sim<T>, seed: u64) -> Option<usize> {
    s.stats.inc("epi_heal");
    s.heal_everything();
    let who: Vec<usize> = (0..s.n).collect();
    let b = bound(s);
    let hold = 3 * s.cfg.elect as usize;
    let w = who.clone();
    // A change of priority takes effect some rounds later: a leader change in between may lose
    // entries that were not replicated yet, so try again with the new leader (a few times).
    let mut tries = 0;
    loop {
        if !run_until(s, b + hold, hold, seed, |s| common_leader(s, &w).is_some()) {
            let st = status(s);
            s.viol("live", format!("no common leader {} rounds after healing: {}", b, st));
            return None;
        }
        let before = common_leader(s, &who).map(|l| s.nodes[l].promise);
        let mut ids = vec![];
        for i in 0..s.n {
            let id = s.next_epi_id;
            s.next_epi_id += 1;
            if s.append(i, id, id as u32) {
                ids.push(id);
            }
            if s.violation.is_some() {
                return None;
            }
        }
        let ids2 = ids.clone();
        if run_until(s, b, 0, seed ^ 77, |s| all_decided(s, &w, &ids2) && level(s)) {
            break;
        }
        tries += 1;
        let after = common_leader(s, &who).map(|l| s.nodes[l].promise);
        if s.violation.is_some() {
            return None;
        }
        if tries < 3 && after != before {
            s.stats.inc("epi_heal_retry");
            continue;
        }
        let st = status(s);
        s.viol(
            "live",
            format!("entries {:?} not decided everywhere {} rounds after a stable leader: {}", ids, b, st),
        );
        return None;
    }
    if matches!(s.glog.last(), Some(GE::SS(_))) {
        s.stats.inc("epi_heal_stopped");
    } else if s.cfg.epi == Epi::Heal && s.glog.len() % 3 == 0 {
        // a reconfiguration requested at any server takes effect as well
        s.stats.inc("epi_heal_reconf");
        let i = (seed as usize ^ s.glog.len()) % s.n;
        let mut ok = false;
        for _ in 0..3 {
            let before = common_leader(s, &who).map(|l| s.nodes[l].promise);
            s.reconf(i, 7);
            ok = run_until(s, b, 0, seed ^ 78, |s| level(s) && matches!(s.glog.last(), Some(GE::SS(_))));
            if s.violation.is_some() {
                return None;
            }
            if ok || common_leader(s, &who).map(|l| s.nodes[l].promise) == before {
                break;
            }
        }
        if !ok {
            let st = status(s);
            s.viol("live", format!("a reconfiguration requested at server {} is not decided everywhere {} rounds later: {}", s.nodes[i].pid, b, st));
            return None;
        }
    }
    let w = who.clone();
    common_leader(s, &w)
}

pub fn partial<T: TestEntry>(s: &mut Sim<T>, adj: &[u32], seed: u64) {
    let n = s.n;
    if s.cfg.flex.is_some() || adj.len() != n {
        return;
    }
    // symmetric closure; a server without any link is left as it is (possibly crashed)
    let link = |a: usize, b: usize| a != b && (adj[a] & (1 << b) != 0) && (adj[b] & (1 << a) != 0);
    let deg = |a: usize| (0..n).filter(|b| link(a, *b)).count() + 1;
    let qc: Vec<usize> = (0..n).filter(|a| deg(*a) >= n / 2 + 1).collect();
    if qc.is_empty() {
        return;
    }
    s.stats.inc("epi_partial");
    if qc.len() < n {
        s.stats.inc("epi_partial_some_not_qc");
    }
    if (0..n).any(|a| (0..a).any(|b| !link(a, b) && deg(a) > 1 && deg(b) > 1)) {
        s.stats.inc("epi_partial_nontransitive");
    }
    for i in 0..n {
        s.nodes[i].store.0.borrow_mut().fault = None;
        if deg(i) > 1 && !s.alive(i) {
            s.start(i, false);
        }
    }
    for a in 0..n {
        for b in 0..n {
            if a == b {
                continue;
            }
            let l = s.li(a, b);
            if link(a, b) {
                s.up[l] = true;
            } else if s.up[l] {
                s.cut(a, b);
            }
        }
    }
    for a in 0..n {
        for b in 0..n {
            if link(a, b) {
                let pb = s.nodes[b].pid;
                s.broken = true;
                s.call(a, |op| op.reconnected(pb));
            }
        }
    }
    let b = bound(s) + 10 * s.cfg.elect as usize;
    let mut spent = 0;
    let mut attempt = 0;
    let step = (4 * s.cfg.elect + 2 * s.cfg.resend + 2 * s.cfg.flush + 4) as usize;
    let total = 2 * b + 10 * step;
    while spent < total && s.violation.is_none() {
        let cands: Vec<usize> = qc.iter().copied().filter(|i| {
            let op = match s.nodes[*i].op.as_ref() {
                Some(o) => o,
                None => return false,
            };
            let l = s.nodes[*i].pid;
            op.get_current_leader() == Some((l, true))
        }).collect();
        // a deposed leader may be unable to learn about its successor: any of them will do
        let leader = if cands.is_empty() { None } else { Some(cands[attempt % cands.len()]) };
        let l = match leader {
            None => {
                s.round(seed.wrapping_add(spent as u64));
                spent += 1;
                continue;
            }
            Some(l) => l,
        };
        if matches!(s.glog.last(), Some(GE::SS(_))) || s.nodes[l].store.0.borrow().ghost.stopsign.is_some() {
            // stopped configuration: the reconfiguration must become decided in the neighbourhood
            let who: Vec<usize> = (0..n).filter(|b| *b == l || link(l, *b)).collect();
            attempt += 1;
            let ok = run_until(s, step, 0, seed + spent as u64, |s| {
                matches!(s.glog.last(), Some(GE::SS(_))) && s.nodes[l].decided == s.glog.len() && who.iter().filter(|i| s.nodes[**i].decided == s.glog.len()).count() >= n / 2 + 1
            });
            spent += step;
            if ok {
                s.stats.inc("epi_partial_ok");
                return;
            }
            continue;
        }
        let id = s.next_epi_id;
        s.next_epi_id += 1;
        attempt += 1;
        s.append(l, id, id as u32);
        let who: Vec<usize> = (0..n).filter(|b| *b == l || link(l, *b)).collect();
        let ok = run_until(s, step, 0, seed + 1000 + spent as u64, |s| {
            all_decided(s, &[l], &[id]) && who.iter().filter(|i| all_decided(s, &[**i], &[id])).count() >= n / 2 + 1
        });
        spent += step;
        if ok {
            s.stats.inc("epi_partial_ok");
            return;
        }
    }
    if s.violation.is_none() {
        let st = status(s);
        s.viol(
            "live-partial",
            format!(
                "links {:?}: no decision at a quorum-connected leader and a majority after {} rounds and {} attempts: {}",
                adj, total, attempt, st
            ),
        );
    }
}

/// undisturbed cluster with a stable leader: everything appended is decided, once, in order
pub fn stable<T: TestEntry>(s: &mut Sim<T>, seed: u64) {
    let b0 = match s.fresh_ballot {
        Some(b) if !s.disturbed => b,
        _ => {
            s.stats.inc("epi_stable_skipped");
            return;
        }
    };
    let ids: Vec<u64> = s.appended_at.iter().flatten().copied().collect();
    let who: Vec<usize> = (0..s.n).collect();
    let b = bound(s);
    let ids2 = ids.clone();
    let stops = !s.reconf_ok.is_empty();
    let ok = run_until(s, b, 0, seed, |s| all_decided(s, &who, &ids2) && level(s) && (!stops || matches!(s.glog.last(), Some(GE::SS(_)))));
    if s.violation.is_some() {
        return;
    }
    if s.nodes.iter().any(|n| bkey(&n.promise) != b0) {
        s.stats.inc("epi_stable_leader_changed");
        return;
    }
    s.stats.inc("epi_stable");
    if stops {
        s.stats.inc("epi_stable_reconf");
        if !ok {
            let st = status(s);
            s.viol("stop-live", format!("stable cluster: no reconfiguration is decided everywhere {} rounds after one was accepted by reconfigure: {}", b, st));
        } else if let [(i, k)] = s.reconf_ok[..] {
            // the only reconfiguration: it follows what its server appended before
            let missing: Vec<u64> = s.appended_at[i][..k].iter().filter(|id| !s.decided_ids.contains_key(id)).copied().collect();
            if !missing.is_empty() {
                let st = status(s);
                s.viol("stop-live", format!("stable cluster: entries {:?} appended at server {} before its reconfiguration are not decided: {}", missing, s.nodes[i].pid, st));
            }
        }
        return;
    }
    if !ok {
        let missing: Vec<u64> = ids.iter().filter(|i| !s.decided_ids.contains_key(i)).copied().collect();
        let st = status(s);
        s.viol("stable", format!("stable cluster: appended entries {:?} not decided everywhere after {} rounds: {}", missing, b, st));
        return;
    }
    if matches!(s.glog.last(), Some(GE::SS(_))) {
        return;
    }
    for i in 0..s.n {
        let pos: Vec<usize> = s.appended_at[i].iter().map(|id| s.decided_ids[id]).collect();
        if pos.windows(2).any(|w| w[0] >= w[1]) {
            let m = format!("entries {:?} appended at server {} decided at {:?}", s.appended_at[i], s.nodes[i].pid, pos);
            s.viol("stable", m);
            return;
        }
    }
}

pub fn trim<T: TestEntry>(s: &mut Sim<T>, seed: u64) {
    let l = match heal(s, seed) {
        None => return,
        Some(l) => l,
    };
    let stopped = matches!(s.glog.last(), Some(GE::SS(_))) as usize;
    let d = s.glog.len();
    if T::SNAP {
        return snapshot_everywhere(s, seed, d, stopped);
    }
    let idx = match seed % 3 {
        0 => None,
        1 => Some(d),
        _ => Some(d - stopped),
    };
    s.stats.inc("epi_trim");
    let r = s.call(l, |op| op.trim(idx));
    match r {
        Some(Ok(())) => (),
        Some(Err(e)) => {
            let m = format!("every server has decided {} entries but trim({:?}) at the leader failed with {:?}", d, idx, e);
            s.viol("trim", m);
            return;
        }
        None => return,
    }
    s.pump(seed);
    for i in 0..s.n {
        if s.nodes[i].compacted != d - stopped && s.violation.is_none() {
            let m = format!(
                "after trim({:?}) of {} decided entries server {} has compacted index {}",
                idx, d, s.nodes[i].pid, s.nodes[i].compacted
            );
            s.viol("trim", m);
        }
    }
    if s.violation.is_none() {
        // the trimmed cluster keeps working
        heal(s, seed ^ 5);
    }
}

/// every server has decided everything: a snapshot is taken where it was asked for, or everywhere
fn snapshot_everywhere<T: TestEntry>(s: &mut Sim<T>, seed: u64, d: usize, stopped: usize) {
    let h = (seed ^ s.step as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 20;
    let i = h as usize % s.n;
    let local = (h >> 8) % 4 == 0;
    let idx = match (h >> 16) % 4 {
        0 => None,
        1 => Some(d),
        2 => Some(d - stopped),
        _ => Some(s.nodes[i].compacted.max(d / 2)),
    };
    let to = match idx {
        Some(x) if x < d => x,
        _ => d - stopped,
    };
    s.stats.inc(if local { "epi_snapshot_local" } else { "epi_snapshot_everywhere" });
    s.pump(seed);
    let before: Vec<usize> = s.nodes.iter().map(|n| n.compacted).collect();
    match s.call(i, |op| op.snapshot(idx, local)) {
        Some(Ok(())) => (),
        Some(Err(e)) => {
            let m = format!("every server has decided {} entries but snapshot({:?}) failed with {:?}", d, idx, e);
            s.viol("snap", m);
            return;
        }
        None => return,
    }
    s.pump(seed);
    for k in 0..s.n {
        let want = if k == i || !local { before[k].max(to) } else { before[k] };
        if s.nodes[k].compacted != want && s.violation.is_none() {
            let m = format!(
                "after snapshot({:?}, local {}) of {} decided entries at server {} server {} has compacted index {}, expected {}",
                idx, local, d, s.nodes[i].pid, s.nodes[k].pid, s.nodes[k].compacted, want
            );
            s.viol("snap", m);
        }
    }
    if s.violation.is_none() {
        heal(s, seed ^ 5);
    }
}

/// only messages were lost: without any reconnection report the cluster recovers as soon as the
/// leader sends something new
pub fn gap<T: TestEntry>(s: &mut Sim<T>, seed: u64) {
    if s.hard || s.nodes.iter().any(|n| n.store.0.borrow().ghost.stopsign.is_some()) || !s.proposed_ss.is_empty() {
        s.stats.inc("epi_gap_skipped");
        return;
    }
    s.stats.inc("epi_gap");
    let who: Vec<usize> = (0..s.n).collect();
    let b = bound(s);
    let hold = 3 * s.cfg.elect as usize;
    let mut done = false;
    for k in 0..4 {
        let w = who.clone();
        if !run_until(s, b + hold, hold, seed + k, |s| common_leader(s, &w).is_some()) {
            break;
        }
        let l = match common_leader(s, &who) {
            Some(l) => l,
            None => continue,
        };
        let id = s.next_epi_id;
        s.next_epi_id += 1;
        let bal = s.nodes[l].promise;
        s.append(l, id, id as u32);
        let w = who.clone();
        if run_until(s, b, 0, seed + 10 + k, |s| all_decided(s, &w, &[id]) && level(s)) {
            done = true;
            break;
        }
        if common_leader(s, &who) == Some(l) && s.nodes[l].promise == bal {
            // same leader all along: no excuse
            break;
        }
    }
    if !done && s.violation.is_none() {
        let st = status(s);
        s.viol("gap-live", format!("servers did not re-synchronise after lost messages: {}", st));
    }
}

pub fn run<T: TestEntry>(s: &mut Sim<T>) {
    if s.violation.is_some() {
        return;
    }
    s.step += 1;
    s.unslow();
    let seed = 0x5eed ^ s.cfg.elect ^ (s.cfg.batch as u64) << 8 ^ (s.cfg.resend << 20);
    match s.cfg.epi.clone() {
        Epi::None => (),
        Epi::Heal => {
            heal(s, seed);
        }
        Epi::Partial(adj) => partial(s, &adj, seed),
        Epi::Stable => stable(s, seed),
        Epi::Trim => trim(s, seed),
        Epi::Gap => gap(s, seed),
    }
}

// ------------------------------------------------------------------ leader election

/// a fresh, fully connected cluster ticking in lockstep elects the highest (priority, pid)
pub fn expect_fresh<T: TestEntry>(s: &mut Sim<T>) {
    if !s.pristine {
        return;
    }
    s.pristine = false;
    let early = std::mem::take(&mut s.early);
    let early_reconf = std::mem::take(&mut s.early_reconf);
    s.stats.inc("expect_fresh");
    let want = (0..s.n).max_by_key(|i| (s.cfg.prio[*i], s.nodes[*i].pid)).unwrap();
    let who: Vec<usize> = (0..s.n).collect();
    let b = bound(s);
    let hold = 3 * s.cfg.elect as usize;
    let mut now = 0;
    let mut append = |s: &mut Sim<T>| {
        for (_, i, id) in early.iter().filter(|e| e.0 == now) {
            s.stats.inc("early");
            s.append(*i, *id, 0);
        }
        for (_, i, k) in early_reconf.iter().filter(|e| e.0 == now) {
            s.stats.inc("early_reconf");
            s.reconf(*i, *k);
        }
        now += 1;
    };
    append(s);
    // the first heartbeat round is answered before the first timeout
    s.pump(1);
    if !run_until(s, b + hold, hold, 1, |s| {
        append(s);
        common_leader(s, &who).is_some()
    }) {
        let st = status(s);
        s.viol("elect", format!("fresh cluster without common leader after {} rounds: {}", b, st));
        return;
    }
    if common_leader(s, &who) != Some(want) {
        let st = status(s);
        let p = s.nodes[want].pid;
        s.viol("elect", format!("fresh cluster did not elect server {} with the highest priority: {}", p, st));
        return;
    }
    s.fresh_ballot = Some(bkey(&s.nodes[want].promise));
}

fn healthy<T: TestEntry>(s: &mut Sim<T>) -> Option<usize> {
    if s.violation.is_some() || (0..s.n).any(|i| !s.alive(i)) || s.up.iter().any(|u| !*u) {
        return None;
    }
    // settle
    for i in 0..s.n {
        s.nodes[i].store.0.borrow_mut().fault = None;
    }
    let who: Vec<usize> = (0..s.n).collect();
    let b = bound(s);
    let mut hold = 8 * s.cfg.elect as usize;
    if s.prio_changed {
        // takes some election timeouts to have an effect
        hold = 14 * s.cfg.elect as usize;
    }
    let w = who.clone();
    if run_until(s, b + hold, hold, 2, |s| common_leader(s, &w).is_some()) {
        common_leader(s, &who)
    } else {
        None
    }
}

/// with no faults an elected leader keeps its leadership
pub fn expect_stable<T: TestEntry>(s: &mut Sim<T>, k: usize) {
    let l = match healthy(s) {
        None => return,
        Some(l) => l,
    };
    s.stats.inc("expect_stable");
    let b = s.nodes[l].promise;
    for r in 0..k.min(400) {
        s.round(r as u64);
        if s.violation.is_some() {
            return;
        }
        for i in 0..s.n {
            if s.nodes[i].promise != b {
                let st = status(s);
                s.viol("elect", format!("leader {:?} replaced without any fault: {}", bkey(&b), st));
                return;
            }
        }
    }
}

pub fn expect_takeover<T: TestEntry>(s: &mut Sim<T>, i: usize) {
    let old = match healthy(s) {
        None => return,
        Some(l) => l,
    };
    s.stats.inc("expect_takeover");
    s.disturbed = true;
    let bal = s.nodes[old].promise;
    s.call(i, |op| op.try_become_leader());
    let who: Vec<usize> = (0..s.n).collect();
    let b = bound(s);
    let hold = 3 * s.cfg.elect as usize;
    let w = who.clone();
    let ok = run_until(s, b + hold, hold, 3, |s| common_leader(s, &w) == Some(i));
    if s.violation.is_some() {
        return;
    }
    if !ok || s.nodes[i].promise <= bal {
        let st = status(s);
        let p = s.nodes[i].pid;
        s.viol("elect", format!("server {} did not take over leadership from {:?}: {}", p, bkey(&bal), st));
    }
}

/// a changed priority: the server whose ballot becomes the highest leads; a leader that gives up its ballot is replaced
pub fn expect_prio<T: TestEntry>(s: &mut Sim<T>, i: usize, p: u32) {
    let old = match healthy(s) {
        None => return,
        Some(l) => l,
    };
    let lead = s.nodes[old].promise;
    let own = match s.call(i, |op| op.get_ui_states().current_ballot) {
        Some(b) => b,
        None => return,
    };
    let new = Ballot { priority: p, ..own };
    s.disturbed = true;
    s.prio_changed = true;
    s.nodes[i].prio = p;
    s.call(i, |op| op.set_priority(p));
    if new <= lead && i != old || new == lead {
        return;
    }
    s.stats.inc(if new > lead { "expect_prio_up" } else { "expect_prio_down" });
    let who: Vec<usize> = (0..s.n).collect();
    let b = bound(s);
    let hold = 3 * s.cfg.elect as usize;
    let w = who.clone();
    let ok = run_until(s, b + hold, hold, 3, |s| match common_leader(s, &w) {
        Some(l) => s.nodes[l].promise > lead && (new < lead || l == i),
        None => false,
    });
    if s.violation.is_none() && !ok {
        let st = status(s);
        let pid = s.nodes[i].pid;
        s.viol("elect", format!("server {} with ballot {:?} after its priority was changed to {} while {:?} led: no such election: {}", pid, bkey(&new), p, bkey(&lead), st));
    }
}

/// crash the leader; the rest must elect a new one with a higher ballot
pub fn expect_failover<T: TestEntry>(s: &mut Sim<T>) {
    if s.n - 1 < s.rq.max(s.wq) {
        return;
    }
    let l = match healthy(s) {
        None => return,
        Some(l) => l,
    };
    s.stats.inc("expect_failover");
    let bal = s.nodes[l].promise;
    s.crash(l);
    let who: Vec<usize> = (0..s.n).filter(|x| *x != l).collect();
    let b = bound(s);
    let hold = 2 * s.cfg.elect as usize;
    let w = who.clone();
    let ok = run_until(s, b + hold, hold, 4, |s| common_leader(s, &w).is_some());
    if s.violation.is_some() {
        return;
    }
    let nl = common_leader(s, &who);
    if !ok || nl.map(|x| s.nodes[x].promise <= bal).unwrap_or(true) {
        let st = status(s);
        s.viol("elect", format!("no new leader {} rounds after leader {:?} crashed: {}", b, bkey(&bal), st));
    }
}
