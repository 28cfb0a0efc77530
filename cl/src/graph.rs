//! The explored ledgers, and what is true of them: read from the bytes the program wrote, not with the client.
use serde_json::Value;
use std::collections::HashMap;

pub struct Account {
    pub lamports: u64,
    pub owner: String,
    pub data: Vec<u8>,
}
pub type Ledger = HashMap<String, usize>;
pub struct Graph {
    pub title: String,
    pub depth: u64,
    pub ledgers: Vec<Ledger>,
    pub labels: Vec<String>,
    /// Steps from each ledger: (label, ledger reached).
    pub out: Vec<Vec<(usize, usize)>>,
}
pub struct Graphs {
    pub accounts: Vec<Account>,
    pub graphs: Vec<Graph>,
    pub edges: Vec<u8>,
    pub program: String,
    pub token: String,
    pub state: String,
    pub vault: String,
    pub xorca_mint: String,
    pub users: Vec<String>,
    pub claims: Vec<Vec<String>>,
}

fn list(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}

impl Graphs {
    pub fn read(file: &str) -> Graphs {
        let v: Value = serde_json::from_slice(&std::fs::read(file).expect("ledgers")).expect("ledgers");
        let s = |k: &str| v[k].as_str().unwrap().to_string();
        let accounts = v["accounts"]
            .as_array()
            .unwrap()
            .iter()
            .map(|a| {
                let hex = a["data"].as_str().unwrap();
                let mut data: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
                data.resize(a["len"].as_u64().unwrap() as usize, 0);
                Account { lamports: a["lamports"].as_str().unwrap().parse().unwrap(), owner: a["owner"].as_str().unwrap().into(), data }
            })
            .collect();
        let graphs = v["graphs"]
            .as_array()
            .unwrap()
            .iter()
            .map(|g| {
                let ledgers: Vec<Ledger> = g["ledgers"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|l| l.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap() as usize)).collect())
                    .collect();
                let mut out = vec![vec![]; ledgers.len()];
                for s in g["steps"].as_array().unwrap() {
                    let n = |i: usize| s[i].as_u64().unwrap() as usize;
                    out[n(0)].push((n(1), n(2)));
                }
                Graph { title: g["title"].as_str().unwrap().into(), depth: g["depth"].as_u64().unwrap(), ledgers, labels: list(&g["labels"]), out }
            })
            .collect();
        Graphs {
            accounts,
            graphs,
            edges: v["edges"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect(),
            program: s("program"),
            token: s("token"),
            state: s("state"),
            vault: s("vault"),
            xorca_mint: s("xorcaMint"),
            users: list(&v["users"]),
            claims: v["claims"].as_array().unwrap().iter().map(list).collect(),
        }
    }
    fn get(&self, l: &Ledger, address: &str) -> Option<&Account> {
        l.get(address).map(|i| &self.accounts[*i])
    }
}

fn u64_at(d: &[u8], at: usize) -> u64 {
    u64::from_le_bytes(d[at..at + 8].try_into().unwrap())
}

/// (bump, vault bump, escrow, cooldown, authority)
pub type Settings = (u8, u8, u64, i64, Vec<u8>);
/// (bump, index, owner, amount, release)
pub type Claim = (u8, u8, Vec<u8>, u64, i64);

impl Graphs {
    pub fn settings(&self, l: &Ledger) -> Option<Settings> {
        let a = self.get(l, &self.state)?;
        let d = &a.data;
        (a.owner == self.program && d.len() == 2048 && d[0] == 1).then(|| (d[6], d[7], u64_at(d, 8), u64_at(d, 16) as i64, d[24..56].to_vec()))
    }
    /// (owner, mint, amount)
    pub fn vault(&self, l: &Ledger) -> Option<(Vec<u8>, Vec<u8>, u64)> {
        let a = self.get(l, &self.vault)?;
        let d = &a.data;
        (a.owner == self.token && d.len() == 165 && d[108] == 1).then(|| (d[32..64].to_vec(), d[..32].to_vec(), u64_at(d, 64)))
    }
    pub fn supply(&self, l: &Ledger) -> Option<u64> {
        let a = self.get(l, &self.xorca_mint)?;
        let d = &a.data;
        (a.owner == self.token && d.len() == 82 && d[45] == 1).then(|| u64_at(d, 36))
    }
    pub fn rate(&self, l: &Ledger) -> Option<(u64, u64)> {
        let (_, _, escrow, _, _) = self.settings(l)?;
        Some((self.vault(l)?.2.checked_sub(escrow)?, self.supply(l)?))
    }
    pub fn claim(&self, l: &Ledger, address: &str) -> Option<Claim> {
        let a = self.get(l, address)?;
        let d = &a.data;
        (a.owner == self.program && d.len() == 1024 && d[0] == 2).then(|| (d[6], d[7], d[8..40].to_vec(), u64_at(d, 40), u64_at(d, 48) as i64))
    }
    pub fn claims_of(&self, l: &Ledger, user: usize, below: usize) -> Vec<Claim> {
        (0..below).filter_map(|i| self.claim(l, &self.claims[user][i])).collect()
    }
}
