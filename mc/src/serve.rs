//! The ledger for checks that live outside this process (`js/scripts.mjs`): reachable ledgers, what transactions do to
//! them, and what an order should do to them. One request a line, one answer a line; every answer comes from the real
//! program.
use crate::host::{find_pda, Key, Meta};
use crate::suites::T0;
use crate::svm::*;
use crate::world::*;
use serde_json::{json, Map, Value};
use solana_program::pubkey::Pubkey;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, Write};
use std::str::FromStr;
use Amt::*;
use Op::*;

enum Act {
    Op(Op),
    /// These instructions, in one transaction.
    Raw(&'static str, fn() -> Vec<Ix>),
}
impl Act {
    fn label(&self) -> String {
        match self {
            Act::Op(o) => o.to_string(),
            Act::Raw(s, _) => s.to_string(),
        }
    }
    fn run(&self, w: &World) -> Option<World> {
        match self {
            Act::Op(Warp(d)) => Some(World { now: w.now + d, ..w.clone() }),
            Act::Op(o) => {
                let (ix, _) = build(o, w)?;
                run_tx(w, &[ix]).ok().map(|o| o.world)
            }
            Act::Raw(_, f) => run_tx(w, &f()).ok().map(|o| o.world),
        }
    }
}

fn name(k: &Key) -> String {
    Pubkey::new_from_array(*k).to_string()
}
fn key(v: &Value) -> Key {
    Pubkey::from_str(v.as_str().unwrap_or("")).map(|p| p.to_bytes()).unwrap_or_default()
}
fn meta(key: &Key, signer: bool, writable: bool) -> Meta {
    Meta { key: *key, signer, writable }
}
fn ix_mint_authority(by: &Key) -> Ix {
    let c = cast();
    let mut data = vec![6u8, 0, 1];
    data.extend_from_slice(&c.state);
    Ix { program: c.token, metas: vec![meta(&c.xorca_mint, false, true), meta(by, true, false)], data }
}
fn ix_close(acct: &Key, to: &Key, auth: &Key) -> Ix {
    Ix { program: cast().token, metas: vec![meta(acct, false, true), meta(to, false, true), meta(auth, true, false)], data: vec![9] }
}
fn ata(owner: &Key, mint: &Key) -> Key {
    find_pda(&[owner, &cast().token, mint], &cast().ata).unwrap().0
}
pub fn stranger() -> Key {
    named("STRANGER")
}

fn acts() -> Vec<Act> {
    let ops = [
        Init(255, ADMIN, 100),
        Stake(0, Fix(150)),
        Stake(1, Fix(97)),
        Unstake(0, Half, 0),
        Unstake(0, Fix(3), 1),
        Unstake(2, Fix(5), 14),
        Unstake(0, Fix(2), 15),
        Withdraw(0, 0),
        Withdraw(2, 14),
        Donate(1, Fix(333)),
        SetCd(ADMIN, 0),
        SetCd(ADMIN, 100_000),
        SetAuth(ADMIN, 1),
        Prefund(1, 0, 2, rent_min(0)),
        Warp(10),
        Warp(100_000),
    ];
    let mut v: Vec<Act> = ops.into_iter().map(Act::Op).collect();
    v.push(Act::Raw("the mint authority goes to the state", || vec![ix_mint_authority(&who(ADMIN))]));
    v.push(Act::Raw("A's empty ORCA account is closed", || {
        let c = cast();
        vec![ix_token_transfer(&c.orca_ata[0], &c.orca_ata[1], &who(0), 0), ix_close(&c.orca_ata[0], &who(0), &who(0))]
    }));
    v.push(Act::Raw("somebody creates B's xORCA account", || vec![ix_create_ata(&who(2), &who(1), &cast().xorca_mint)]));
    v.push(Act::Raw("somebody creates C's ORCA account", || vec![ix_create_ata(&who(1), &who(2), &cast().orca_mint)]));
    v.push(Act::Raw("somebody creates the stranger's ORCA account", || vec![ix_create_ata(&who(2), &stranger(), &cast().orca_mint)]));
    v.push(Act::Raw("somebody sends lamports to where B's xORCA account belongs", || {
        vec![ix_sys_transfer(&who(2), &cast().xorca_ata[1], rent_min(0))]
    }));
    v.push(Act::Raw("somebody sends lamports to where C's ORCA account belongs", || {
        vec![ix_sys_transfer(&who(1), &cast().orca_ata[2], rent_min(0))]
    }));
    v.push(Act::Raw("A sends 50 ORCA to B", || vec![ix_token_transfer(&cast().orca_ata[0], &cast().orca_ata[1], &who(0), 50)]));
    v
}

fn starts() -> Vec<World> {
    let c = cast();
    let m = 1_000_000;
    let lacking = |mut w: World| {
        for k in [c.xorca_ata[1], c.orca_ata[2]] {
            if w.tokens(&k) == 0 {
                w.put(k, Acc::system(0));
            }
        }
        w
    };
    let after = |mut w: World, ops: &[Op]| {
        for o in ops {
            if let Some(v) = Act::Op(o.clone()).run(&w) {
                w = v;
            }
        }
        w
    };
    let bare = {
        let mut w = lacking(genesis([m, m, 0, m], T0));
        w.put(c.xorca_mint, mint_account(Some(&who(ADMIN)), 0, 6, None));
        w
    };
    let fresh = lacking(genesis([m, m, 0, m], T0));
    let mut gifted = fresh.clone();
    gifted.put(c.state, Acc::system(rent_min(0)));
    let live = lacking(pool([m, m, 0, m], 10, T0));
    let busy = lacking(after(
        pool([m, m, 0, m], 10, T0),
        &[
            Stake(0, Fix(1000)),
            Donate(1, Fix(377)),
            XferX(0, 2, Fix(100)),
            Unstake(0, Fix(100), 0),
            Unstake(0, Fix(33), 14),
            Warp(7),
            Unstake(2, Fix(20), 0),
        ],
    ));
    // More than a double holds exactly.
    let b = (1u64 << 53) + 1;
    let big = lacking(after(
        pool([3 * b + 4, 3 * b + 2, 0, m], 10, T0),
        &[Stake(0, Fix(b)), Donate(1, Fix(b + 2)), Unstake(0, Fix(b / 2), 0), Unstake(0, Fix(3), 1)],
    ));
    // A's ORCA is all staked.
    let all_in = lacking(after(pool([5000, m, 0, m], 10, T0), &[Stake(0, All), Donate(1, Fix(11)), Unstake(0, Fix(1000), 0), Warp(10)]));
    vec![bare, fresh, gifted, live, busy, big, all_in]
}

struct Server {
    worlds: Vec<World>,
    ids: HashMap<u128, usize>,
    accounts: HashMap<(u64, Key, Vec<u8>, usize), usize>,
    sent: HashSet<usize>,
    acts: Vec<Act>,
}
impl Server {
    fn id(&mut self, w: World) -> usize {
        let n = self.worlds.len();
        let got = *self.ids.entry(w.hash()).or_insert(n);
        if got == n {
            self.worlds.push(w);
        }
        got
    }
    /// The ledgers within `depth` operations of the starts; the number of those within each number of operations.
    fn explore(&mut self, depth: usize) -> Vec<usize> {
        for w in starts() {
            self.id(w);
        }
        let mut levels = vec![self.worlds.len()];
        let mut from = 0;
        for _ in 0..depth {
            let to = self.worlds.len();
            for i in from..to {
                for j in 0..self.acts.len() {
                    let w = self.worlds[i].clone();
                    if let Some(v) = self.acts[j].run(&w) {
                        self.id(v);
                    }
                }
            }
            from = to;
            levels.push(self.worlds.len());
        }
        levels
    }
    fn world(&mut self, i: usize) -> Value {
        let w = self.worlds[i].clone();
        let mut ledger = Map::new();
        let mut new = Map::new();
        for (k, a) in &w.accts {
            let n = self.accounts.len();
            let id = *self.accounts.entry((a.lamports, a.owner, a.data.clone(), a.len)).or_insert(n);
            if self.sent.insert(id) {
                let hex: String = a.data.iter().map(|b| format!("{b:02x}")).collect();
                new.insert(id.to_string(), json!({"lamports": a.lamports.to_string(), "owner": name(&a.owner), "data": hex, "len": a.len}));
            }
            ledger.insert(name(k), json!(id));
        }
        json!({"now": w.now.to_string(), "ledger": ledger, "accounts": new})
    }
    fn tx(&mut self, q: &Value) -> Value {
        let payer = key(&q["payer"]);
        let ixs: Vec<Ix> = q["ixs"]
            .as_array()
            .unwrap()
            .iter()
            .map(|i| {
                let h = i["data"].as_str().unwrap();
                Ix {
                    program: key(&i["program"]),
                    metas: i["keys"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|m| {
                            let k = key(&m[0]);
                            meta(&k, m[1] == json!(true) || k == payer, m[2] == json!(true) || k == payer)
                        })
                        .collect(),
                    data: (0..h.len() / 2).map(|j| u8::from_str_radix(&h[2 * j..2 * j + 2], 16).unwrap()).collect(),
                }
            })
            .collect();
        let w = self.worlds[q["w"].as_u64().unwrap() as usize].clone();
        match run_tx(&w, &ixs) {
            Ok(o) => json!({"ok": true, "w": self.id(o.world)}),
            Err(TxErr::Program(c)) => json!({"ok": false, "code": c, "error": format!("custom program error: 0x{c:x}")}),
            Err(e) => json!({"ok": false, "error": format!("{e:?}")}),
        }
    }
    /// The ledgers an order may lead to, and whether it is possible.
    fn want(&mut self, q: &Value) -> Value {
        let c = cast();
        let o = &q["order"];
        let u = o["user"].as_u64().unwrap_or(0) as u8;
        let by = who(u);
        let n = |f: &str| o[f].as_str().and_then(|s| s.parse::<u64>().ok());
        let s = |f: &str| o[f].as_str().and_then(|s| s.parse::<i64>().ok());
        let i = || o["index"].as_str().and_then(|s| s.parse::<u8>().ok());
        let own = |m: &Key| ata(&by, m);
        let orca = own(&c.orca_mint);
        let xorca = own(&c.xorca_mint);
        let built: Option<(Option<(Key, Key)>, Ix)> = (|| {
            Some(match o["kind"].as_str()? {
                "stake" => (Some((by, c.xorca_mint)), ix_stake(&by, &orca, &xorca, n("amount")?)),
                "unstake" => (Some((by, c.orca_mint)), ix_unstake(&by, &xorca, n("amount")?, i()?)),
                "withdraw" => (Some((by, c.orca_mint)), ix_withdraw(&by, &orca, i()?)),
                "initialize" => (None, ix_init(&by, &who(o["authority"].as_u64()? as u8), s("cooldown")?)),
                "setCooldown" => (None, ix_set_cooldown(&by, s("cooldown")?)),
                "setAuthority" => (None, ix_set_authority(&by, &key(&o["to"]))),
                "transfer" => {
                    let to = key(&o["to"]);
                    (Some((to, c.orca_mint)), ix_token_transfer(&orca, &ata(&to, &c.orca_mint), &by, n("amount")?))
                }
                "vault" => (None, ix_token_transfer(&orca, &c.vault, &by, n("amount")?)),
                "mintAuthority" => (None, ix_mint_authority(&by)),
                k => panic!("an unknown order {k}"),
            })
        })();
        let Some((account, ix)) = built else { return json!({"all": [], "possible": false}) };
        let w = self.worlds[q["w"].as_u64().unwrap() as usize].clone();
        let mut all = vec![];
        let mut possible = false;
        let mut ways = vec![vec![ix.clone()]];
        if let Some((owner, mint)) = account {
            // (Lamports at the address do not make it an account.)
            if w.get(&ata(&owner, &mint)).is_none_or(|a| a.owner != c.token) {
                ways.push(vec![ix_create_ata(&by, &owner, &mint), ix]);
            }
        }
        for v in ways {
            if let Ok(o) = run_tx(&w, &v) {
                possible = true;
                let id = self.id(o.world);
                if !all.contains(&id) {
                    all.push(id);
                }
            }
        }
        json!({"all": all, "possible": possible})
    }
    fn answer(&mut self, q: &Value) -> Value {
        match q["q"].as_str().unwrap_or("") {
            "world" => self.world(q["w"].as_u64().unwrap() as usize),
            "tx" => self.tx(q),
            "want" => self.want(q),
            "act" => {
                let w = self.worlds[q["w"].as_u64().unwrap() as usize].clone();
                match self.acts[q["act"].as_u64().unwrap() as usize].run(&w) {
                    Some(v) => json!({"w": self.id(v)}),
                    None => json!({"w": null}),
                }
            }
            k => panic!("an unknown request {k}"),
        }
    }
}

pub fn run(depth: usize) {
    let c = cast();
    let mut s = Server { worlds: vec![], ids: HashMap::new(), accounts: HashMap::new(), sent: HashSet::new(), acts: acts() };
    let levels = s.explore(depth);
    let hello = json!({
        "levels": levels,
        "acts": s.acts.iter().map(|a| a.label()).collect::<Vec<_>>(),
        "program": name(&c.xorca), "token": name(&c.token), "ata": name(&c.ata),
        "orcaMint": name(&c.orca_mint), "xorcaMint": name(&c.xorca_mint),
        "state": name(&c.state), "vault": name(&c.vault), "stateBump": c.state_bump, "vaultBump": c.vault_bump,
        "users": c.wallet.iter().chain([&c.deployer]).map(name).collect::<Vec<_>>(),
        "stranger": name(&stranger()),
        "orcaAtas": c.wallet.iter().chain([&c.deployer]).map(|w| name(&ata(w, &c.orca_mint))).collect::<Vec<_>>(),
        "xorcaAtas": c.wallet.iter().chain([&c.deployer]).map(|w| name(&ata(w, &c.xorca_mint))).collect::<Vec<_>>(),
        "strangerAta": name(&ata(&stranger(), &c.orca_mint)),
        "claims": c.wallet.iter().map(|w| (0..16u8).map(|i| name(&pending(w, i))).collect::<Vec<_>>()).collect::<Vec<_>>(),
    });
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    let mut say = |v: Value| {
        out.write_all(v.to_string().as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    };
    say(hello);
    for l in stdin.lock().lines() {
        let Ok(l) = l else { return };
        let q: Value = serde_json::from_str(&l).expect("a request");
        say(s.answer(&q));
    }
}
