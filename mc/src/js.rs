//! The JavaScript client beside the program (C18): everything the explored histories did, wrote and reported is
//! collected and put to `js/wire.mjs`, which builds, decodes and names it with the client's own code.
use crate::client::{claim_address, meanings, pool_addresses};
use crate::engine::*;
use crate::host::{Key, Meta};
use crate::model::*;
use crate::svm::*;
use crate::world::*;
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;
use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::str::FromStr;
use std::sync::Mutex;

fn name(k: &Key) -> String {
    Pubkey::new_from_array(*k).to_string()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// What the client is asked to build, and what the program is known to understand by it.
pub fn order(op: &Op, x: u64) -> Option<Value> {
    let c = cast();
    let amount = x.to_string();
    let (mut v, ix) = match op {
        Op::Stake(u, _) => (
            json!({"kind": "stake", "user": name(&who(*u)), "orcaAta": name(&c.orca_ata[*u as usize]), "xorcaAta": name(&c.xorca_ata[*u as usize]), "amount": amount}),
            ix_stake(&who(*u), &c.orca_ata[*u as usize], &c.xorca_ata[*u as usize], x),
        ),
        Op::Unstake(u, _, i) => (
            json!({"kind": "unstake", "user": name(&who(*u)), "xorcaAta": name(&c.xorca_ata[*u as usize]), "amount": amount, "index": i}),
            ix_unstake(&who(*u), &c.xorca_ata[*u as usize], x, *i),
        ),
        Op::Withdraw(u, i) => (
            json!({"kind": "withdraw", "user": name(&who(*u)), "orcaAta": name(&c.orca_ata[*u as usize]), "index": i}),
            ix_withdraw(&who(*u), &c.orca_ata[*u as usize], *i),
        ),
        Op::SetCd(u, cd) => (json!({"kind": "setCooldown", "user": name(&who(*u)), "cooldown": cd.to_string()}), ix_set_cooldown(&who(*u), *cd)),
        Op::SetAuth(u, t) => (json!({"kind": "setAuthority", "user": name(&who(*u)), "authority": name(&who(*t))}), ix_set_authority(&who(*u), &who(*t))),
        Op::Init(p, a, cd) => (
            json!({"kind": "initialize", "user": name(&who(*p)), "authority": name(&who(*a)), "cooldown": cd.to_string()}),
            ix_init(&who(*p), &who(*a), *cd),
        ),
        _ => return None,
    };
    v["t"] = json!("ix");
    v["program"] = json!(name(&ix.program));
    v["data"] = json!(hex(&ix.data));
    v["metas"] = ix.metas.iter().map(|m| json!([name(&m.key), m.signer as u8 * 2 + m.writable as u8])).collect();
    Some(v)
}

fn account(kind: &str, a: &Acc) -> Value {
    json!({"t": kind, "data": hex(&a.data), "len": a.len})
}

/// The event of an accepted operation, with what is true of each field.
fn event(s: &Step, data: &[u8]) -> Option<Value> {
    let n = |x: u64| json!(x.to_string());
    let (kind, fields) = match s.op {
        Op::Stake(..) => (
            "Stake",
            vec![
                ("orcaStakeAmount", n(s.x)),
                ("vaultOrcaAmount", n(s.post.vault())),
                ("vaultEscrowedOrcaAmount", n(s.post.escrow())),
                ("xorcaMintSupply", n(s.post.supply())),
                ("xorcaToMint", n(s.post.supply().wrapping_sub(s.pre.supply()))),
            ],
        ),
        Op::Unstake(_, _, i) => (
            "Unstake",
            vec![
                ("xorcaUnstakeAmount", n(s.x)),
                ("vaultOrcaAmount", n(s.post.vault())),
                ("vaultEscrowedOrcaAmount", n(s.post.escrow())),
                ("xorcaMintSupply", n(s.post.supply())),
                ("withdrawableOrcaAmount", n(s.post.escrow().wrapping_sub(s.pre.escrow()))),
                ("coolDownPeriodS", json!(s.post.cooldown().to_string())),
                ("withdrawIndex", json!(i.to_string())),
            ],
        ),
        Op::Withdraw(_, i) => (
            "Withdraw",
            vec![
                ("vaultEscrowedOrcaAmount", n(s.post.escrow())),
                ("withdrawableOrcaAmount", n(s.pre.vault().wrapping_sub(s.post.vault()))),
                ("coolDownPeriodS", json!(s.post.cooldown().to_string())),
                ("withdrawIndex", json!(i.to_string())),
            ],
        ),
        Op::SetAuth(b, t) => ("UpdateAuthoritySet", vec![("newAuthority", json!(name(&who(*t)))), ("setBy", json!(name(&who(*b))))]),
        _ => return None,
    };
    let fields: Vec<Value> = fields.into_iter().map(|(k, v)| json!([k, v])).collect();
    Some(json!({"t": "event", "kind": kind, "fields": fields, "data": hex(data)}))
}

/// Collects; judges nothing.
pub struct Collect {
    seen: Vec<Mutex<HashSet<String>>>,
}
impl Default for Collect {
    fn default() -> Self {
        Collect { seen: (0..256).map(|_| Default::default()).collect() }
    }
}
impl Collect {
    fn add(&self, v: Value) {
        let s = v.to_string();
        let h = s.bytes().fold(0u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32));
        self.seen[(h >> 7) as usize % 256].lock().unwrap().insert(s);
    }
    pub fn boundaries(&self) {
        let (state, sb, vault, vb) = pool_addresses();
        self.add(json!({"t": "pool", "state": name(&state), "stateBump": sb, "vault": name(&vault), "vaultBump": vb, "token": name(&cast().token), "orcaMint": name(&cast().orca_mint), "program": name(&cast().xorca)}));
        for u in 0..USERS as u8 {
            for i in 0..=255u8 {
                let (k, b) = claim_address(&who(u), i);
                self.add(json!({"t": "claimAddress", "user": name(&who(u)), "index": i, "address": name(&k), "bump": b}));
            }
        }
        for x in crate::suites::boundary(u64::MAX, 3).into_iter().chain([u64::MAX - 1, u64::MAX]) {
            for u in 0..2 {
                self.add(order(&Op::Stake(u, Amt::Fix(x)), x).unwrap());
                self.add(order(&Op::Unstake(u, Amt::Fix(x), (x % 256) as u8), x).unwrap());
            }
            for cd in [x as i64, (x as i64).wrapping_neg()] {
                self.add(order(&Op::SetCd(ADMIN, cd), 0).unwrap());
                self.add(order(&Op::Init(255, ADMIN, cd), 0).unwrap());
            }
        }
        for i in 0..=255u8 {
            for u in 0..3 {
                self.add(order(&Op::Unstake(u, Amt::Fix(7), i), 7).unwrap());
                self.add(order(&Op::Withdraw(u, i), 0).unwrap());
            }
        }
        for b in [0u8, 1, ADMIN, 255] {
            for t in [0u8, 1, 2, ADMIN, 255] {
                self.add(order(&Op::SetAuth(b, t), 0).unwrap());
                self.add(order(&Op::Init(b, t, 77), 0).unwrap());
            }
        }
    }
    /// The pool first.
    pub fn dump(&self, file: &std::path::Path) -> std::io::Result<u64> {
        let mut f = std::io::BufWriter::new(std::fs::File::create(file)?);
        let mut n = 0;
        for first in [true, false] {
            for m in &self.seen {
                let m = m.lock().unwrap();
                let mut v: Vec<&String> = m.iter().filter(|s| s.contains("\"t\":\"pool\"") == first).collect();
                v.sort();
                for s in v {
                    f.write_all(s.as_bytes())?;
                    f.write_all(b"\n")?;
                    n += 1;
                }
            }
        }
        f.flush()?;
        Ok(n)
    }
}
impl Monitor for Collect {
    fn step(&self, s: &Step) -> Verdict {
        if s.in_tx {
            return Ok(());
        }
        if let Some(v) = order(s.op, s.x) {
            self.add(v);
        }
        match &s.res {
            Ok(()) => {
                for e in s.events {
                    if let Some(v) = event(s, e) {
                        self.add(v);
                    }
                }
            }
            Err(TxErr::Program(code)) => {
                let why = refusals(s.pre, s.ghost, s.op, s.x);
                let mut ok = vec![];
                for r in &why {
                    match meanings(s.op, r) {
                        None => return Ok(()),
                        Some(v) => ok.extend(v.iter().map(|m| format!("{m:?}"))),
                    }
                }
                if !ok.is_empty() {
                    ok.sort();
                    ok.dedup();
                    self.add(json!({"t": "error", "op": s.op.kind(), "code": code, "meanings": ok}));
                }
            }
            Err(_) => {}
        }
        Ok(())
    }
    fn state(&self, w: &World, _: &Ghost, _: &mut Counts) -> Verdict {
        let c = cast();
        for (k, a) in &w.accts {
            if a.owner == c.xorca {
                self.add(account(if *k == c.state { "state" } else { "claim" }, a));
            } else if *k == c.vault {
                self.add(account("tokenAccount", a));
            } else if *k == c.xorca_mint {
                self.add(account("tokenMint", a));
            }
        }
        Ok(())
    }
}

/// The instructions the client builds differently: are they understood all the same?
pub struct Differs {
    ixs: HashMap<String, Vec<Ix>>,
    met: Mutex<HashSet<String>>,
}
impl Differs {
    /// From lines {"order": <the order>, "ix": {program, metas, data}}.
    pub fn read(text: &str) -> Differs {
        let key = |v: &Value| Pubkey::from_str(v.as_str().unwrap_or("")).map(|p| p.to_bytes()).unwrap_or_default();
        let mut ixs: HashMap<String, Vec<Ix>> = HashMap::new();
        for l in text.lines() {
            let v: Value = serde_json::from_str(l).expect("a record");
            let i = &v["ix"];
            let h = i["data"].as_str().unwrap();
            let ix = Ix {
                program: key(&i["program"]),
                metas: i["metas"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|m| Meta { key: key(&m[0]), signer: m[1].as_u64().unwrap() & 2 != 0, writable: m[1].as_u64().unwrap() & 1 != 0 })
                    .collect(),
                data: (0..h.len() / 2).map(|j| u8::from_str_radix(&h[2 * j..2 * j + 2], 16).unwrap()).collect(),
            };
            let all = ixs.entry(v["order"].to_string()).or_default();
            if !all.iter().any(|o| crate::client::same(o, &ix)) {
                all.push(ix);
            }
        }
        Differs { ixs, met: Default::default() }
    }
    /// The orders that no history executed can only be judged by their bytes: same data, same accounts.
    pub fn unmet(&self) -> Verdict {
        let met = self.met.lock().unwrap();
        let mut left: Vec<&String> = self.ixs.keys().filter(|k| !met.contains(*k)).collect();
        left.sort();
        for k in left {
            let v: Value = serde_json::from_str(k).unwrap();
            for ix in &self.ixs[k] {
                if v["data"] != json!(hex(&ix.data)) || v["program"] != json!(name(&ix.program)) {
                    return Err(format!("the JavaScript client builds {ix:?} for {v}"));
                }
            }
        }
        Ok(())
    }
}
impl Monitor for Differs {
    fn step(&self, s: &Step) -> Verdict {
        if s.in_tx {
            return Ok(());
        }
        let Some(order) = order(s.op, s.x).map(|o| o.to_string()) else { return Ok(()) };
        let Some(all) = self.ixs.get(&order) else { return Ok(()) };
        self.met.lock().unwrap().insert(order);
        for ix in all {
            let (res, post) = match run_tx(s.pre, &[ix.clone()]) {
                Ok(o) => (Ok(()), o.world),
                Err(e) => (Err(e), s.pre.clone()),
            };
            if res.is_ok() != s.res.is_ok() || post != *s.post {
                return Err(format!("'{}' (amount {}) as built by the JavaScript client has another effect than it should: {res:?} instead of {:?}; built: {ix:?}", s.op, s.x, s.res));
            }
        }
        Ok(())
    }
}
