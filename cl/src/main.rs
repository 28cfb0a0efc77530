//! C13: the fetch helpers of the Rust client, run against every reachable ledger, with every way the pool can change
//! between their requests and every way a response can be spoiled.
mod graph;
mod node;
use graph::*;
use node::*;
use serde_json::{json, Value};
use solana_client::rpc_client::{RpcClient, RpcClientConfig};
use solana_pubkey::Pubkey;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
enum Call {
    Settings,
    Cooldown,
    Vault,
    Supply,
    Rate,
    /// Of this user (4: someone who never claimed), with this limit.
    Claims(usize, Option<u8>),
    /// The generated fetchers: one or all, strict or not, of the state or of these claims.
    State(bool, bool),
    Accounts(bool, bool, Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
enum Got {
    Settings(Settings),
    Cooldown(i64),
    Vault(String, Vec<u8>, Vec<u8>, u64),
    Supply(u64),
    Rate(u64, u64),
    Claims(Vec<Claim>),
    Accounts(Vec<Option<(String, u64, Vec<u8>)>>),
}

fn claim(p: &xorca::PendingWithdraw) -> Claim {
    (p.bump, p.withdraw_index, p.unstaker.to_bytes().to_vec(), p.withdrawable_orca_amount, p.withdrawable_timestamp)
}
fn settings(s: &xorca::State) -> Settings {
    (s.bump, s.vault_bump, s.escrowed_orca_amount, s.cool_down_period_s, s.update_authority.to_bytes().to_vec())
}
fn stranger() -> Pubkey {
    Pubkey::new_from_array([9; 32])
}

fn make(w: &Graphs, rpc: &RpcClient, c: &Call) -> Result<Got, String> {
    let pk = |s: &str| Pubkey::from_str(s).unwrap();
    fn e<E: std::fmt::Display>(x: E) -> String {
        x.to_string()
    }
    // The decoded value must be the one in the account it is returned with.
    fn both<T>(d: &xorca::DecodedAccount<T>, enc: impl Fn(&T) -> Vec<u8>) -> (String, u64, Vec<u8>) {
        let shown = enc(&d.data);
        let data = if d.account.data.starts_with(&shown) { d.account.data.clone() } else { shown };
        (d.address.to_string(), d.account.lamports, data)
    }
    fn state_head(s: &xorca::State) -> Vec<u8> {
        let mut v = vec![s.discriminator.clone() as u8];
        v.extend(s.padding1);
        v.extend([s.bump, s.vault_bump]);
        v.extend(s.escrowed_orca_amount.to_le_bytes());
        v.extend(s.cool_down_period_s.to_le_bytes());
        v.extend(s.update_authority.to_bytes());
        v
    }
    fn claim_head(s: &xorca::PendingWithdraw) -> Vec<u8> {
        let mut v = vec![s.discriminator.clone() as u8];
        v.extend(s.padding1);
        v.extend([s.bump, s.withdraw_index]);
        v.extend(s.unstaker.to_bytes());
        v.extend(s.withdrawable_orca_amount.to_le_bytes());
        v.extend(s.withdrawable_timestamp.to_le_bytes());
        v
    }
    fn maybe<T>(m: &xorca::MaybeAccount<T>, enc: impl Fn(&T) -> Vec<u8>) -> Option<(String, u64, Vec<u8>)> {
        match m {
            xorca::MaybeAccount::Exists(d) => Some(both(d, enc)),
            xorca::MaybeAccount::NotFound(_) => None,
        }
    }
    Ok(match c {
        Call::Settings => Got::Settings(settings(&xorca::fetch_state_account_data(rpc).map_err(e)?)),
        Call::Cooldown => Got::Cooldown(xorca::fetch_state_account_cool_down_period_s(rpc).map_err(e)?),
        Call::Vault => {
            let v = xorca::fetch_vault_state(rpc).map_err(e)?;
            Got::Vault(v.address.to_string(), v.owner.to_bytes().to_vec(), v.mint.to_bytes().to_vec(), v.amount)
        }
        Call::Supply => Got::Supply(xorca::fetch_xorca_mint_supply(rpc).map_err(e)?),
        Call::Rate => {
            let r = xorca::fetch_staking_exchange_rate(rpc).map_err(e)?;
            Got::Rate(r.numerator, r.denominator)
        }
        Call::Claims(u, limit) => {
            let staker = w.users.get(*u).map(|s| pk(s)).unwrap_or(stranger());
            Got::Claims(xorca::fetch_pending_withdraws_for_staker(rpc, &staker, *limit).map_err(e)?.iter().map(claim).collect())
        }
        Call::State(strict, one) => {
            let a = pk(&w.state);
            Got::Accounts(match (strict, one) {
                (true, true) => vec![Some(both(&xorca::fetch_state(rpc, &a).map_err(e)?, state_head))],
                (true, false) => xorca::fetch_all_state(rpc, &[a]).map_err(e)?.iter().map(|d| Some(both(d, state_head))).collect(),
                (false, true) => vec![maybe(&xorca::fetch_maybe_state(rpc, &a).map_err(e)?, state_head)],
                (false, false) => xorca::fetch_all_maybe_state(rpc, &[a]).map_err(e)?.iter().map(|d| maybe(d, state_head)).collect(),
            })
        }
        Call::Accounts(strict, one, is) => {
            let a: Vec<Pubkey> = is.iter().map(|i| pk(&w.claims[0][*i as usize])).collect();
            Got::Accounts(match (strict, one) {
                (true, true) => vec![Some(both(&xorca::fetch_pending_withdraw(rpc, &a[0]).map_err(e)?, claim_head))],
                (true, false) => xorca::fetch_all_pending_withdraw(rpc, &a).map_err(e)?.iter().map(|d| Some(both(d, claim_head))).collect(),
                (false, true) => vec![maybe(&xorca::fetch_maybe_pending_withdraw(rpc, &a[0]).map_err(e)?, claim_head)],
                (false, false) => xorca::fetch_all_maybe_pending_withdraw(rpc, &a).map_err(e)?.iter().map(|d| maybe(d, claim_head)).collect(),
            })
        }
    })
}

/// What an honest answer about one ledger is; None: there is nothing to answer with.
fn truth(w: &Graphs, l: &Ledger, c: &Call) -> Option<Got> {
    Some(match c {
        Call::Settings => Got::Settings(w.settings(l)?),
        Call::Cooldown => Got::Cooldown(w.settings(l)?.3),
        Call::Vault => {
            let (o, m, a) = w.vault(l)?;
            Got::Vault(w.vault.clone(), o, m, a)
        }
        Call::Supply => Got::Supply(w.supply(l)?),
        Call::Rate => {
            let (n, d) = w.rate(l)?;
            Got::Rate(n, d)
        }
        Call::Claims(u, limit) => Got::Claims(if *u < w.users.len() { w.claims_of(l, *u, limit.unwrap_or(15) as usize) } else { vec![] }),
        Call::State(strict, _) => {
            let a = w.settings(l).map(|_| (w.state.clone(), &w.accounts[l[&w.state]]));
            if a.is_none() && (*strict || l.contains_key(&w.state)) {
                return None;
            }
            Got::Accounts(vec![a.map(|(n, a)| (n, a.lamports, a.data.clone()))])
        }
        Call::Accounts(strict, _, is) => {
            let mut v = vec![];
            for i in is {
                let name = &w.claims[0][*i as usize];
                let a = w.claim(l, name).map(|_| &w.accounts[l[name]]);
                // Not an account of the program: a strict fetcher has nothing to return, and the generated lenient
                // ones may refuse to say.
                if a.is_none() && (*strict || l.contains_key(name)) {
                    return None;
                }
                v.push(a.map(|a| (name.clone(), a.lamports, a.data.clone())));
            }
            Got::Accounts(v)
        }
    })
}

fn sorted(g: &Got) -> Got {
    match g {
        Got::Claims(v) => {
            let mut v = v.clone();
            v.sort();
            Got::Claims(v)
        }
        g => g.clone(),
    }
}

/// Is the outcome one a caller can rely on, given the ledgers the pool went through while the helper ran?
fn judge(w: &Graphs, g: &Graph, path: &[usize], c: &Call, got: &Result<Result<Got, String>, String>, fault: bool) -> Result<(), String> {
    let truths: Vec<Option<Got>> = path.iter().map(|i| truth(w, &g.ledgers[*i], c)).collect();
    match got {
        Err(p) => Err(format!("it panicked: {p}")),
        Ok(Err(_)) if fault || truths.iter().any(|t| t.is_none()) => Ok(()),
        Ok(Err(e)) => Err(format!("it failed ({e}) although the node answered and the ledger had {:?}", truths[0])),
        Ok(Ok(v)) => {
            let v = sorted(v);
            if truths.iter().flatten().any(|t| sorted(t) == v) {
                return Ok(());
            }
            // More claims than one request may ask for: each of them must be true of some moment, and one that was
            // there all along must be listed.
            if let (Call::Claims(u, Some(limit)), Got::Claims(v)) = (c, &v) {
                if *limit > 100 && *u < w.users.len() {
                    let each: Vec<Vec<Claim>> = path.iter().map(|i| w.claims_of(&g.ledgers[*i], *u, *limit as usize)).collect();
                    let real = v.iter().all(|x| each.iter().any(|l| l.contains(x)));
                    let once = v.windows(2).all(|p| p[0].1 != p[1].1);
                    let all = each[0].iter().filter(|x| each.iter().all(|l| l.contains(x))).all(|x| v.contains(x));
                    if real && once && all {
                        return Ok(());
                    }
                }
            }
            Err(format!("it returned {v:?}, but the ledger had {}", truths.iter().map(|t| format!("{t:?}")).collect::<Vec<_>>().join(", then ")))
        }
    }
}

#[derive(Default)]
struct Tally {
    calls: u64,
    requests: u64,
    steps: u64,
    executions: u64,
    faults: u64,
    most: usize,
    by: BTreeMap<String, u64>,
}

struct Worker {
    world: Arc<Graphs>,
    script: Arc<Mutex<Script>>,
    rpc: RpcClient,
    n: Tally,
}
impl Worker {
    fn new(world: Arc<Graphs>) -> Worker {
        let script = Arc::new(Mutex::new(Script::default()));
        let node = Node { world: world.clone(), script: script.clone() };
        Worker { world, script, rpc: RpcClient::new_sender(node, RpcClientConfig::default()), n: Tally::default() }
    }
    fn once(&mut self, g: usize, at: usize, c: &Call, budget: usize, fault: Option<(usize, Fault)>) -> Result<(), Vec<String>> {
        let spoiled = fault.is_some();
        self.script.lock().unwrap().begin(g, at, budget, fault.clone());
        let (w, rpc) = (&self.world, &self.rpc);
        let got = catch_unwind(AssertUnwindSafe(|| make(w, rpc, c)))
            .map_err(|p| p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default());
        let s = self.script.lock().unwrap_or_else(|p| {
            self.script.clear_poison();
            p.into_inner()
        });
        if let Some(u) = &s.unmodelled {
            println!("the client asks the node something that is not modelled: {u}");
            std::process::exit(2);
        }
        self.n.executions += 1;
        self.n.requests += s.requests as u64;
        self.n.steps += s.labels.len() as u64;
        self.n.faults += spoiled as u64;
        self.n.most = self.n.most.max(s.requests);
        *self.n.by.entry(format!("{c:?}").split('(').next().unwrap().to_string()).or_default() += 1;
        judge(&self.world, &self.world.graphs[g], &s.path, c, &got, spoiled).map_err(|e| {
            let mut t = vec![format!("ledger {at} of \"{}\"", self.world.graphs[g].title), format!("call {c:?}")];
            t.extend(s.labels.clone());
            if let Some((r, f)) = &fault {
                t.push(format!("the response to request {} is spoiled: {f:?}", r + 1));
            }
            t.push(e);
            t
        })
    }
    /// Every schedule of the call from this ledger.
    fn schedules(&mut self, g: usize, at: usize, c: &Call, budget: usize) -> Result<(), Vec<String>> {
        self.n.calls += 1;
        self.script.lock().unwrap().choices.clear();
        loop {
            self.once(g, at, c, budget, None)?;
            if !self.script.lock().unwrap().advance() {
                return Ok(());
            }
        }
    }
    /// Every single fault of every response.
    fn faults(&mut self, g: usize, at: usize, c: &Call, dense: bool) -> Result<(), Vec<String>> {
        self.script.lock().unwrap().choices.clear();
        self.once(g, at, c, 0, None)?;
        let sizes = self.script.lock().unwrap().sizes.clone();
        for (r, n) in sizes.iter().enumerate() {
            let mut all = vec![Fault::Transport, Fault::Refused, Fault::NullResponse, Fault::EmptyObject, Fault::NullValue];
            // An absent claim is an honest answer (and the RPC library makes one of an account whose data is not base64);
            // any other absent account is not.
            let optional = matches!(c, Call::Claims(..) | Call::Accounts(false, ..) | Call::State(false, _));
            let generated = matches!(c, Call::Accounts(..) | Call::State(..));
            for j in 0..*n {
                if !optional {
                    all.extend([Fault::Gone(j), Fault::NotBase64(j)]);
                }
                all.push(Fault::Byte(j, 0, 0xee));
                let cuts: Vec<usize> = if dense { (0..2048).collect() } else { [0, 1, 2, 5, 6, 7, 8, 9, 15, 16, 23, 24, 31, 32, 36, 39, 40, 41, 44, 47, 48, 55, 56, 57, 63, 64, 71, 72, 80, 81, 82, 100, 108, 109, 164, 512, 1000, 1023, 1024, 2000, 2047].to_vec() };
                all.extend(cuts.into_iter().map(|k| Fault::Cut(j, k)));
            }
            if !generated && *n > 0 {
                all.extend([Fault::Short(0), Fault::Short(n - 1)]);
            }
            for f in all {
                // A fault that changes nothing is none.
                let mut spoils = true;
                match f {
                    Fault::Gone(j) | Fault::NotBase64(j) | Fault::Byte(j, ..) | Fault::Cut(j, _) => {
                        let (len, there) = self.asked(g, at, c, r, j);
                        if let Fault::Cut(_, k) = f {
                            spoils = k < len;
                        }
                        if let Fault::Byte(..) = f {
                            // The first byte of a token account belongs to a key: any value is valid there.
                            spoils = len > 200;
                        }
                        spoils &= there;
                    }
                    Fault::Short(_) => spoils = *n > 1 || r == 0,
                    _ => {}
                }
                if spoils {
                    self.script.lock().unwrap().choices.clear();
                    self.once(g, at, c, 0, Some((r, f)))?;
                }
            }
        }
        Ok(())
    }
    /// The length of the j-th account the r-th request of the call asks for, and whether it exists and matters.
    fn asked(&self, g: usize, at: usize, _c: &Call, r: usize, j: usize) -> (usize, bool) {
        let s = self.script.lock().unwrap();
        let name = s.asked.get(r).and_then(|v| v.get(j)).cloned().unwrap_or_default();
        let l = &self.world.graphs[g].ledgers[at];
        match l.get(&name) {
            Some(i) => (self.world.accounts[*i].data.len(), self.world.accounts[*i].owner != "11111111111111111111111111111111"),
            None => (0, false),
        }
    }
}

fn verif() -> std::path::PathBuf {
    std::env::var("VERIF").unwrap_or_else(|_| "/verif".into()).into()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = a.get(1).cloned().unwrap_or("quick".into());
    let file = a.get(2).cloned().expect("usage: xcl quick|thorough <ledgers>");
    let deep = tier == "thorough";
    let t0 = Instant::now();
    std::panic::set_hook(Box::new(|_| {}));
    let world = Arc::new(Graphs::read(&file));
    let mut work: Vec<(usize, usize, Call, usize)> = vec![];
    let limits: Vec<u8> = [0, 1, 2, 14, 15, 16, 98, 99, 100, 101, 102, 199, 200, 201, 254, 255].to_vec();
    for (g, gr) in world.graphs.iter().enumerate() {
        for at in 0..gr.ledgers.len() {
            // 0: schedules only, 1: faults as well.
            let mode = (g == 0 && (at < 40 || (deep && at % 16 == 0)) || g == 1 && at < 5) as usize;
            let mut add = |c: Call| work.push((g, at, c, mode));
            if g == 0 {
                for c in [Call::Settings, Call::Cooldown, Call::Vault, Call::Supply, Call::Rate, Call::State(true, true), Call::State(true, false), Call::State(false, true), Call::State(false, false)] {
                    add(c);
                }
                for u in 0..3 {
                    for l in [None, Some(0), Some(1), Some(3)] {
                        add(Call::Claims(u, l));
                    }
                }
                if at % 8 == 0 {
                    add(Call::Claims(9, None));
                }
                for strict in [true, false] {
                    add(Call::Accounts(strict, true, vec![0]));
                    for v in [vec![0], vec![0, 2], vec![2, 0], vec![2, 1, 0], vec![0, 0]] {
                        add(Call::Accounts(strict, false, v));
                    }
                }
            } else {
                for l in &limits {
                    if at < 5 || *l > 97 && *l != 102 && *l != 199 && *l != 254 {
                        add(Call::Claims(0, Some(*l)));
                    }
                }
                add(Call::Claims(0, None));
                add(Call::Accounts(false, false, world.edges.clone()));
                add(Call::Accounts(true, false, world.edges.clone()));
            }
        }
    }
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let cut = AtomicBool::new(false);
    let found: Mutex<Option<(usize, Vec<String>)>> = Mutex::new(None);
    let total = Mutex::new(Tally::default());
    let deadline = t0 + Duration::from_secs(if deep { 720 } else { 150 });
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                let mut k = Worker::new(world.clone());
                while !stop.load(Ordering::Relaxed) {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    let Some((g, at, c, mode)) = work.get(i) else { break };
                    if Instant::now() > deadline {
                        cut.store(true, Ordering::Relaxed);
                        break;
                    }
                    let budget = if *g == 0 && deep && *at < 400 { 3 } else if *g == 0 { 2 } else { 1 };
                    let r = k.schedules(*g, *at, c, budget).and_then(|_| if *mode == 1 { k.faults(*g, *at, c, deep && *at < 6 && *g == 0) } else { Ok(()) });
                    if let Err(t) = r {
                        let mut f = found.lock().unwrap();
                        if f.as_ref().is_none_or(|(j, _)| i < *j) {
                            *f = Some((i, t));
                        }
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                let mut n = total.lock().unwrap();
                n.calls += k.n.calls;
                n.requests += k.n.requests;
                n.steps += k.n.steps;
                n.executions += k.n.executions;
                n.faults += k.n.faults;
                n.most = n.most.max(k.n.most);
                for (x, y) in k.n.by {
                    *n.by.entry(x).or_default() += y;
                }
            });
        }
    });
    let n = total.into_inner().unwrap();
    let found = found.into_inner().unwrap();
    let samples: Vec<Value> = work.iter().step_by(work.len() / 12 + 1).map(|(g, at, c, _)| json!({"graph": world.graphs[*g].title, "ledger": at, "call": format!("{c:?}"), "answer": format!("{:?}", truth(&world, &world.graphs[*g].ledgers[*at], c)).chars().take(300).collect::<String>()})).collect();
    let ev = json!({
        "property": "C13",
        "tier": tier,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": n.calls,
            "transitions": n.requests + n.steps,
            "traces_validated_against_impl": n.executions,
            "schedules": n.executions - n.faults,
            "spoiled_responses": n.faults,
            "requests_answered": n.requests,
            "pool_steps_between_requests": n.steps,
            "most_requests_in_one_call": n.most,
            "executions_by_helper": n.by,
            "ledger_graphs": world.graphs.iter().map(|g| json!({"title": g.title, "depth": g.depth, "ledgers": g.ledgers.len(), "steps": g.out.iter().map(|o| o.len()).sum::<usize>()})).collect::<Vec<_>>(),
            "exhaustive": !cut.load(Ordering::Relaxed) && found.is_none(),
            "rule": "a state is one (ledger, helper, arguments); from it every schedule with up to two (some: three) pool operations between the helper's requests is executed, and from some every single fault of every response",
            "samples": samples,
        },
        "assumptions": [
            "the node answers each request from one ledger state, and refuses more than 100 addresses, as Agave does",
            "the ledgers are those the model checker reached with the real program within the stated depth",
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": found.iter().count(),
    });
    std::fs::create_dir_all(verif().join("evidence")).unwrap();
    std::fs::write(verif().join("evidence/C13.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    match found {
        None => println!("C13: held on {} calls, {} executions ({} with a spoiled response) in {:.1}s{}", n.calls, n.executions, n.faults, t0.elapsed().as_secs_f64(), if cut.load(Ordering::Relaxed) { " (cut short)" } else { "" }),
        Some((_, t)) => {
            let out = verif().join("out");
            std::fs::create_dir_all(&out).unwrap();
            let path = out.join("C13.replay.json");
            std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": "C13", "tier": tier, "trace": t})).unwrap()).unwrap();
            for x in &t {
                println!("  {}", x.chars().take(1200).collect::<String>());
            }
            println!("VIOLATION property=C13 replay={}", path.display());
            std::process::exit(1);
        }
    }
}
