//! Reachable ledgers and the steps between them, written out for the checks of the fetch helpers (`cl/`, `js/`):
//! every ledger here was produced by the real program.
use crate::host::Key;
use crate::suites::{Tier, T0};
use crate::svm::*;
use crate::world::*;
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;
use std::collections::HashMap;
use Amt::*;
use Op::*;

enum Act {
    Op(Op),
    /// Lamports sent by a stranger to an account of the pool.
    Gift(&'static str, Key, u64),
}

fn name(k: &Key) -> String {
    Pubkey::new_from_array(*k).to_string()
}

#[derive(Default)]
struct Out {
    accounts: Vec<Value>,
    ids: HashMap<(u64, Key, Vec<u8>, usize), usize>,
}
impl Out {
    fn account(&mut self, a: &Acc) -> usize {
        let n = self.accounts.len();
        let key = (a.lamports, a.owner, a.data.clone(), a.len);
        let got = *self.ids.entry(key).or_insert(n);
        if got == n {
            let hex: String = a.data.iter().map(|b| format!("{b:02x}")).collect();
            self.accounts.push(json!({"lamports": a.lamports.to_string(), "owner": name(&a.owner), "data": hex, "len": a.len}));
        }
        got
    }

    /// All ledgers within `depth` steps of `start`, with all the steps between them.
    fn graph(&mut self, title: &str, starts: Vec<World>, acts: &[Act], depth: usize) -> Value {
        let mut seen: HashMap<u128, usize> = HashMap::new();
        let mut all: Vec<World> = vec![];
        let mut steps: Vec<Value> = vec![];
        let mut front = vec![];
        for w in starts {
            seen.insert(w.hash(), all.len());
            front.push(all.len());
            all.push(w);
        }
        for _ in 0..depth {
            let mut next = vec![];
            for from in front {
                for (j, a) in acts.iter().enumerate() {
                    let w = all[from].clone();
                    let v = match a {
                        Act::Gift(_, to, l) => run_tx(&w, &[ix_sys_transfer(&who(2), to, *l)]).ok().map(|o| o.world),
                        Act::Op(Warp(d)) => Some(World { now: w.now + d, ..w.clone() }),
                        Act::Op(o) => {
                            let (ix, _) = build(o, &w).unwrap();
                            run_tx(&w, &[ix]).ok().map(|o| o.world)
                        }
                    };
                    let Some(v) = v else { continue };
                    if v == w {
                        continue;
                    }
                    let n = all.len();
                    let to = *seen.entry(v.hash()).or_insert(n);
                    if to == n {
                        next.push(n);
                        all.push(v);
                    }
                    steps.push(json!([from, j, to]));
                }
            }
            front = next;
        }
        let ledgers: Vec<Value> = all
            .iter()
            .map(|w| w.accts.iter().map(|(k, a)| (name(k), json!(self.account(a)))).collect::<serde_json::Map<_, _>>().into())
            .collect();
        let labels: Vec<String> = acts
            .iter()
            .map(|a| match a {
                Act::Op(o) => o.to_string(),
                Act::Gift(n, _, l) => format!("C sends {l} lamports to {n}"),
            })
            .collect();
        json!({"title": title, "depth": depth, "ledgers": ledgers, "steps": steps, "labels": labels})
    }
}

fn after(w: World, ops: &[Op]) -> World {
    ops.iter().fold(w, |w, o| match o {
        Warp(d) => World { now: w.now + d, ..w },
        o => match run_tx(&w, &[build(o, &w).unwrap().0]) {
            Ok(o) => o.world,
            Err(_) => w,
        },
    })
}

/// Indices on both sides of everything a search could break at.
const EDGES: [u8; 11] = [0, 1, 14, 15, 98, 99, 100, 101, 199, 200, 254];

pub fn write(file: &std::path::Path, t: Tier) -> std::io::Result<()> {
    let c = cast();
    let mut out = Out::default();
    let m = 1_000_000;
    let fresh = genesis([m; USERS], T0);
    let live = pool([m; USERS], 10, T0);
    let busy = after(live.clone(), &[Stake(0, Fix(1000)), Stake(1, Fix(500)), Donate(2, Fix(377)), Unstake(0, Fix(100), 0), Unstake(1, Fix(33), 1)]);
    let acts: Vec<Act> = [
        Init(255, ADMIN, 100),
        Stake(0, Fix(150)),
        Stake(1, Fix(97)),
        Unstake(0, Half, 0),
        Unstake(0, Fix(1), 2),
        Unstake(1, All, 1),
        Withdraw(0, 0),
        Withdraw(0, 2),
        Withdraw(1, 1),
        Donate(2, Fix(33)),
        BurnX(1, Fix(5)),
        SetCd(ADMIN, 0),
        SetAuth(ADMIN, 1),
        Prefund(2, 0, 1, rent_min(0)),
        Prefund(2, 0, 2, rent_min(1024) + 9),
        Prefund(2, 1, 0, rent_min(0)),
        Warp(10),
    ]
    .into_iter()
    .map(Act::Op)
    .chain([
        Act::Gift("the state address", c.state, rent_min(0)),
        Act::Gift("the vault address", c.vault, rent_min(0)),
        Act::Gift("the xORCA mint", c.xorca_mint, rent_min(0)),
    ])
    .collect();
    let g1 = out.graph("the life of a pool", vec![fresh, live.clone(), busy], &acts, t.pick(4, 5));

    let rich = after(live, &[Stake(0, Fix(100_000)), Donate(2, Fix(777))]);
    let some = |w: World, f: &dyn Fn(usize) -> bool| {
        let mut ops = vec![];
        for (j, i) in EDGES.iter().enumerate() {
            if f(j) {
                ops.push(Unstake(0, Fix(7 + *i as u64), *i));
            } else {
                ops.push(Prefund(2, 0, *i, rent_min(0)));
            }
        }
        ops.push(Warp(100));
        after(w, &ops)
    };
    let starts = vec![rich.clone(), some(rich.clone(), &|_| true), some(rich.clone(), &|j| j % 2 == 0), some(rich.clone(), &|j| j % 2 == 1), some(rich, &|_| false)];
    let mut acts = vec![];
    for i in EDGES {
        acts.push(Act::Op(Unstake(0, Fix(10 + i as u64), i)));
        acts.push(Act::Op(Withdraw(0, i)));
        acts.push(Act::Op(Prefund(2, 0, i, rent_min(0) + 3)));
    }
    let g2 = out.graph("claims at the edges of the searches", starts, &acts, t.pick(2, 3));

    let v = json!({
        "accounts": out.accounts,
        "graphs": [g1, g2],
        "edges": EDGES,
        "program": name(&c.xorca),
        "token": name(&c.token),
        "state": name(&c.state),
        "vault": name(&c.vault),
        "orcaMint": name(&c.orca_mint),
        "xorcaMint": name(&c.xorca_mint),
        "users": c.wallet.iter().map(name).collect::<Vec<_>>(),
        "claims": c.wallet.iter().map(|w| (0..=255u8).map(|i| name(&pending(w, i))).collect::<Vec<_>>()).collect::<Vec<_>>(),
    });
    std::fs::write(file, v.to_string())
}
