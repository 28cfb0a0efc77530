//! Exhaustive exploration: breadth-first over operation sequences with state deduplication, and complete sweeps
//! over families of operation sequences. Every transition runs the real program; monitors judge it.
use crate::host::silence_panics;
use crate::svm::*;
use crate::world::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Step<'a> {
    pub pre: &'a World,
    /// Equal to `pre` when the transaction was refused.
    pub post: &'a World,
    pub ghost: &'a Ghost,
    pub ghost_post: &'a Ghost,
    pub op: &'a Op,
    /// The resolved amount.
    pub x: u64,
    pub res: Result<(), TxErr>,
    pub events: &'a [Vec<u8>],
    /// Part of a transaction of several operations (which as a whole succeeded).
    pub in_tx: bool,
}

pub type Verdict = Result<(), String>;

pub trait Monitor: Sync {
    fn step(&self, s: &Step) -> Verdict;
    /// Judged once per distinct state; may run further transactions on copies.
    fn state(&self, _w: &World, _g: &Ghost, _n: &mut Counts) -> Verdict {
        Ok(())
    }
}

#[derive(Default, Clone, Debug)]
pub struct Counts {
    pub states: u64,
    pub transitions: u64,
    pub accepted: u64,
    pub refused: u64,
    /// Maximal executions: leaves of the search tree, members of a sweep.
    pub traces: u64,
    pub probes: u64,
    pub kinds: BTreeMap<String, (u64, u64)>,
    pub errors: BTreeMap<String, u64>,
}
impl Counts {
    pub fn add(&mut self, o: &Counts) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.accepted += o.accepted;
        self.refused += o.refused;
        self.traces += o.traces;
        self.probes += o.probes;
        for (k, v) in &o.kinds {
            let e = self.kinds.entry(k.clone()).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        for (k, v) in &o.errors {
            *self.errors.entry(k.clone()).or_default() += v;
        }
    }
    pub fn tally(&mut self, kind: &str, res: &Result<(), TxErr>) {
        self.transitions += 1;
        if !self.kinds.contains_key(kind) {
            self.kinds.insert(kind.to_string(), (0, 0));
        }
        let e = self.kinds.get_mut(kind).unwrap();
        match res {
            Ok(()) => {
                self.accepted += 1;
                e.0 += 1;
            }
            Err(x) => {
                self.refused += 1;
                e.1 += 1;
                let name = match x {
                    TxErr::Program(c) => format!("program:{c}"),
                    TxErr::Cpi(s) => format!("cpi:{s}"),
                    TxErr::Runtime(s) => format!("runtime:{s}"),
                    TxErr::Panic(_) => "panic".to_string(),
                };
                *self.errors.entry(name).or_default() += 1;
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub what: String,
    pub scope: String,
    pub trace: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct ScopeReport {
    pub name: String,
    pub bound: String,
    pub counts: Counts,
    pub complete: bool,
    pub depth_done: usize,
    pub secs: f64,
    /// A few of the executions, written out.
    pub samples: Vec<Vec<String>>,
}

pub struct Run<'a> {
    pub mon: &'a dyn Monitor,
    pub threads: usize,
    pub deadline: Instant,
    pub reports: Vec<ScopeReport>,
    pub violation: Option<Violation>,
    /// Restrict the run to the scope of this name (replay).
    pub only: Option<String>,
    /// Explore no deeper than this (conformance runs).
    pub shallow: usize,
}

/// Apply one operation; the result is a list of atomic steps already judged by the monitor.
/// Returns the successor, or None if the ledger did not change.
pub fn apply(w: &World, g: &Ghost, op: &Op, mon: &dyn Monitor, n: &mut Counts) -> Result<Option<(World, Ghost)>, String> {
    match op {
        Op::Warp(d) => {
            let mut v = w.clone();
            v.now = v.now.saturating_add(*d);
            n.tally(op.kind(), &Ok(()));
            Ok(Some((v, g.clone())))
        }
        Op::PrefundRaw(u, i, l) => {
            let key = pending(&who(*u), *i);
            let a = w.acc(&key);
            if a.owner != SYSTEM {
                return Ok(None);
            }
            let mut v = w.clone();
            v.put(key, Acc::system(*l));
            n.tally(op.kind(), &Ok(()));
            Ok(Some((v, g.clone())))
        }
        Op::Tx(ops) => {
            // Amounts are resolved against the ledger each instruction will see.
            let mut cur = w.clone();
            let mut gc = g.clone();
            let mut stale = false;
            let mut ixs: Vec<Ix> = vec![];
            let mut xs = vec![];
            for o in ops {
                let Some((ix, x)) = build(o, &cur) else { return Err(format!("not an instruction: {o}")) };
                ixs.push(ix);
                xs.push(x);
                match run_tx(w, &ixs) {
                    Ok(out) => {
                        gc = ghost_after(&gc, o, &cur, &out.world);
                        cur = out.world;
                    }
                    // Intermediate rent states do not count: only the whole transaction's outcome does.
                    Err(TxErr::Runtime(_)) => stale = true,
                    Err(e) => {
                        // The instruction that failed saw the ledger its predecessors left.
                        n.tally(op.kind(), &Err(e.clone()));
                        if stale {
                            return Ok(None);
                        }
                        mon.step(&Step { pre: &cur, post: &cur, ghost: &gc, ghost_post: &gc, op: o, x, res: Err(e), events: &[], in_tx: true })?;
                        return Ok(None);
                    }
                }
            }
            match run_tx(w, &ixs) {
                Err(e) => {
                    n.tally(op.kind(), &Err(e));
                    Ok(None)
                }
                Ok(out) => {
                    let mut pre = w.clone();
                    let mut gp = g.clone();
                    let mut ev = 0;
                    if ixs.len() == 1 {
                        return Err("a multi-operation transaction needs two operations".into());
                    }
                    for (j, (snap, e)) in out.snaps.iter().enumerate() {
                        let gq = ghost_after(&gp, &ops[j], &pre, snap);
                        n.tally(op.kind(), &Ok(()));
                        mon.step(&Step {
                            pre: &pre,
                            post: snap,
                            ghost: &gp,
                            ghost_post: &gq,
                            op: &ops[j],
                            x: xs[j],
                            res: Ok(()),
                            events: &out.events[ev..*e],
                            in_tx: true,
                        })?;
                        ev = *e;
                        pre = snap.clone();
                        gp = gq;
                    }
                    Ok(Some((pre, gp)))
                }
            }
        }
        _ => {
            let (ix, x) = build(op, w).unwrap();
            let r = run_tx(w, &[ix]);
            let (post, events, res) = match r {
                Ok(o) => (Some(o.world), o.events, Ok(())),
                Err(e) => (None, vec![], Err(e)),
            };
            n.tally(op.kind(), &res);
            let gq = match &post {
                Some(p) => ghost_after(g, op, w, p),
                None => g.clone(),
            };
            mon.step(&Step {
                pre: w,
                post: post.as_ref().unwrap_or(w),
                ghost: g,
                ghost_post: &gq,
                op,
                x,
                res,
                events: &events,
                in_tx: false,
            })?;
            Ok(post.map(|p| (p, gq)))
        }
    }
}

fn ghost_after(g: &Ghost, op: &Op, pre: &World, post: &World) -> Ghost {
    let mut g = g.clone();
    match op {
        Op::Unstake(u, _, i) => {
            let a = post.acc(&pending(&who(*u), *i));
            // The promise is for as long as the cooldown in force when the claim was made.
            let release = pre.now.saturating_add(g.cooldown);
            g.claims.insert((*u, *i), (a.u64(40), release, a.lamports));
        }
        Op::Withdraw(u, i) => {
            g.claims.remove(&(*u, *i));
        }
        Op::SetCd(_, c) => g.cooldown = *c,
        Op::SetAuth(_, t) => g.authority = who(*t),
        Op::Init(_, a, c) => {
            g.cooldown = *c;
            g.authority = who(*a);
        }
        _ => {}
    }
    g
}

struct Node {
    w: World,
    g: Ghost,
    path: Vec<u16>,
}

#[derive(Clone)]
pub struct Scope {
    pub name: &'static str,
    pub init: World,
    pub prefix: Vec<Op>,
    pub ops: Vec<Op>,
    pub depth: usize,
    pub max_states: usize,
}

const SHARDS: usize = 256;

impl<'a> Run<'a> {
    pub fn new(mon: &'a dyn Monitor, secs: u64) -> Run<'a> {
        silence_panics();
        Run {
            mon,
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
            deadline: Instant::now() + Duration::from_secs(secs),
            reports: vec![],
            violation: None,
            only: None,
            shallow: usize::MAX,
        }
    }

    /// The same run under another monitor.
    pub fn with(&mut self, mon: &dyn Monitor, f: impl FnOnce(&mut Run)) {
        let mut r = Run { mon, threads: self.threads, deadline: self.deadline, reports: vec![], violation: self.violation.take(), only: self.only.clone(), shallow: self.shallow };
        f(&mut r);
        let Run { reports, violation, .. } = r;
        self.reports.extend(reports);
        self.violation = violation;
    }

    pub fn explore(&mut self, sc: &Scope) {
        if self.violation.is_some() || self.only.as_ref().is_some_and(|o| o != sc.name) {
            return;
        }
        let t0 = Instant::now();
        let depth_max = sc.depth.min(self.shallow);
        let mon = self.mon;
        let visited: Vec<Mutex<HashSet<u128>>> = (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect();
        let seen = |w: &World, g: &Ghost| -> bool {
            let mut h = Mix::new();
            let a = w.hash();
            h.u64(a as u64);
            h.u64((a >> 64) as u64);
            g.hash(&mut h);
            let x = h.done();
            !visited[(x as usize) % SHARDS].lock().unwrap().insert(x)
        };
        let mut total = Counts::default();
        let mut w = sc.init.clone();
        let mut g = Ghost::of(&w);
        let mut done_prefix = vec![];
        for op in &sc.prefix {
            done_prefix.push(op.to_string());
            match apply(&w, &g, op, mon, &mut total) {
                Ok(Some((a, b))) => {
                    w = a;
                    g = b;
                }
                Ok(None) => {}
                Err(what) => {
                    self.violation = Some(Violation { what, scope: sc.name.into(), trace: done_prefix });
                    return;
                }
            }
        }
        let trace = |path: &[u16], last: Option<usize>| {
            let mut t = done_prefix.clone();
            t.extend(path.iter().map(|i| sc.ops[*i as usize].to_string()));
            t.extend(last.map(|i| sc.ops[i].to_string()));
            t
        };
        seen(&w, &g);
        total.states += 1;
        if let Err(what) = mon.state(&w, &g, &mut total) {
            self.violation = Some(Violation { what, scope: sc.name.into(), trace: trace(&[], None) });
            return;
        }
        let mut frontier = vec![Node { w, g, path: vec![] }];
        let mut complete = true;
        let mut depth_done = 0;
        let mut samples: Vec<Vec<String>> = vec![];
        for depth in 0..depth_max {
            let next_i = AtomicUsize::new(0);
            let stop = AtomicBool::new(false);
            let out_of_time = AtomicBool::new(false);
            let room = AtomicUsize::new(sc.max_states.saturating_sub(total.states as usize));
            let found: Mutex<Option<(Vec<u16>, Violation)>> = Mutex::new(None);
            let last = depth + 1 == depth_max;
            let results: Vec<(Vec<Node>, Counts)> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..self.threads)
                    .map(|_| {
                        s.spawn(|| {
                            let mut out = vec![];
                            let mut n = Counts::default();
                            'work: loop {
                                let i = next_i.fetch_add(8, Ordering::Relaxed);
                                if i >= frontier.len() || stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                if Instant::now() > self.deadline {
                                    out_of_time.store(true, Ordering::Relaxed);
                                    break;
                                }
                                for node in &frontier[i..(i + 8).min(frontier.len())] {
                                    let mut leaf = true;
                                    for (oi, op) in sc.ops.iter().enumerate() {
                                        let fail = |what: String| {
                                            let mut p = node.path.clone();
                                            p.push(oi as u16);
                                            let v = Violation { what, scope: sc.name.into(), trace: trace(&node.path, Some(oi)) };
                                            let mut f = found.lock().unwrap();
                                            if f.as_ref().map(|(q, _)| p < *q).unwrap_or(true) {
                                                *f = Some((p, v));
                                            }
                                            stop.store(true, Ordering::Relaxed);
                                        };
                                        match apply(&node.w, &node.g, op, mon, &mut n) {
                                            Err(what) => {
                                                fail(what);
                                                break 'work;
                                            }
                                            Ok(None) => {}
                                            Ok(Some((w, g))) => {
                                                if seen(&w, &g) {
                                                    continue;
                                                }
                                                n.states += 1;
                                                leaf = false;
                                                if last {
                                                    n.traces += 1;
                                                }
                                                if let Err(what) = mon.state(&w, &g, &mut n) {
                                                    fail(what);
                                                    break 'work;
                                                }
                                                if !last {
                                                    let left = room.fetch_update(Ordering::Relaxed, Ordering::Relaxed, |r| r.checked_sub(1));
                                                    if left.is_ok() {
                                                        let mut path = node.path.clone();
                                                        path.push(oi as u16);
                                                        out.push(Node { w, g, path });
                                                    }
                                                }
                                            }
                                        }
                                    }
                                    if leaf {
                                        n.traces += 1;
                                    }
                                }
                            }
                            (out, n)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            let mut next = vec![];
            for (o, n) in results {
                next.extend(o);
                total.add(&n);
            }
            if let Some((_, v)) = found.into_inner().unwrap() {
                self.violation = Some(v);
                complete = false;
                break;
            }
            if out_of_time.load(Ordering::Relaxed) {
                complete = false;
                break;
            }
            depth_done = depth + 1;
            if !last && room.load(Ordering::Relaxed) == 0 {
                complete = false;
            }
            // Simplest first, whatever the thread timing was.
            next.sort_by(|a, b| a.path.cmp(&b.path));
            if !next.is_empty() {
                samples = [0, next.len() / 2, next.len() - 1].iter().map(|i| trace(&next[*i].path, None)).collect();
            }
            frontier = next;
        }
        self.reports.push(ScopeReport {
            name: sc.name.into(),
            bound: format!("all sequences of {} operations up to length {}", sc.ops.len(), depth_max),
            counts: total,
            complete,
            depth_done,
            secs: t0.elapsed().as_secs_f64(),
            samples,
        });
    }

    /// Judge every member of a finite family: `f(i)` for i in 0..n.
    pub fn sweep<F>(&mut self, name: &str, bound: &str, n: usize, f: F)
    where
        F: Fn(usize, &mut Walk) + Sync,
    {
        if self.violation.is_some() || self.only.as_ref().is_some_and(|o| o != name) {
            return;
        }
        let t0 = Instant::now();
        let next_i = AtomicUsize::new(0);
        let found: Mutex<Option<(usize, Violation)>> = Mutex::new(None);
        let stop = AtomicBool::new(false);
        let cut = AtomicBool::new(false);
        let samples: Mutex<Vec<(usize, Vec<String>)>> = Mutex::new(vec![]);
        let mon = self.mon;
        let deadline = self.deadline;
        let chunk = (n / (self.threads * 16)).clamp(1, 256);
        let counts: Vec<Counts> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..self.threads)
                .map(|_| {
                    s.spawn(|| {
                        let mut c = Counts::default();
                        loop {
                            let i0 = next_i.fetch_add(chunk, Ordering::Relaxed);
                            if i0 >= n || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if Instant::now() > deadline {
                                cut.store(true, Ordering::Relaxed);
                                break;
                            }
                            for i in i0..(i0 + chunk).min(n) {
                                let mut walk = Walk { mon, counts: std::mem::take(&mut c), trace: vec![], failed: None, w: World::default(), g: Ghost::default() };
                                f(i, &mut walk);
                                c = walk.counts;
                                c.traces += 1;
                                if i == n / 3 || i + 1 == n {
                                    let mut t = walk.trace.clone();
                                    t.truncate(40);
                                    samples.lock().unwrap().push((i, t));
                                }
                                if let Some(what) = walk.failed {
                                    let v = Violation { what, scope: name.into(), trace: walk.trace };
                                    let mut fo = found.lock().unwrap();
                                    if fo.as_ref().map(|(j, _)| i < *j).unwrap_or(true) {
                                        *fo = Some((i, v));
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        c
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut total = Counts::default();
        for c in counts {
            total.add(&c);
        }
        if let Some((_, v)) = found.into_inner().unwrap() {
            self.violation = Some(v);
        }
        self.reports.push(ScopeReport {
            name: name.into(),
            bound: bound.into(),
            counts: total,
            complete: !cut.load(Ordering::Relaxed),
            depth_done: 0,
            secs: t0.elapsed().as_secs_f64(),
            samples: {
                let mut v = samples.into_inner().unwrap();
                v.sort_by_key(|x: &(usize, Vec<String>)| x.0);
                v.into_iter().map(|x| x.1).collect()
            },
        });
    }
}

/// One member of a sweep: a current world and the operations applied to it.
pub struct Walk<'a> {
    pub mon: &'a dyn Monitor,
    pub counts: Counts,
    pub trace: Vec<String>,
    pub failed: Option<String>,
    pub w: World,
    pub g: Ghost,
}
impl Walk<'_> {
    pub fn start(&mut self, w: World) {
        self.g = Ghost::of(&w);
        self.w = w;
        self.counts.states += 1;
    }
    /// Returns whether the operation was accepted.
    pub fn op(&mut self, op: Op) -> bool {
        if self.failed.is_some() {
            return false;
        }
        self.trace.push(op.to_string());
        match apply(&self.w, &self.g, &op, self.mon, &mut self.counts) {
            Err(e) => {
                self.failed = Some(e);
                false
            }
            Ok(None) => false,
            Ok(Some((w, g))) => {
                self.w = w;
                self.g = g;
                self.counts.states += 1;
                if let Err(e) = self.mon.state(&self.w, &self.g, &mut self.counts) {
                    self.failed = Some(e);
                }
                true
            }
        }
    }
    pub fn ops(&mut self, ops: &[Op]) {
        for o in ops {
            self.op(o.clone());
        }
    }
    pub fn fail(&mut self, s: String) {
        if self.failed.is_none() {
            self.failed = Some(s);
        }
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.trace.push(s.into());
    }
}
