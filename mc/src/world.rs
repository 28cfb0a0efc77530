//! The cast of the explored worlds, the operations on them, and how each becomes a transaction.
use crate::host::{find_pda, Key, Meta};
use crate::svm::*;
use std::collections::BTreeMap;
use std::fmt;

pub const USERS: usize = 4; // 0..2 users, 3 = the initial update authority
pub const ADMIN: u8 = 3;

pub struct Cast {
    pub xorca: Key,
    pub token: Key,
    pub ata: Key,
    pub orca_mint: Key,
    pub xorca_mint: Key,
    pub deployer: Key,
    pub state: Key,
    pub state_bump: u8,
    pub vault: Key,
    pub vault_bump: u8,
    pub wallet: [Key; USERS],
    pub orca_ata: [Key; USERS],
    pub xorca_ata: [Key; USERS],
}

pub fn named(s: &str) -> Key {
    solana_program::hash::hash(format!("xmc:{s}").as_bytes()).to_bytes()
}

pub fn cast() -> &'static Cast {
    static C: std::sync::OnceLock<Cast> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let i = ids();
        let orca_mint = k("orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE");
        let xorca_mint = k("xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N");
        let (state, state_bump) = find_pda(&[b"state"], &i.xorca).unwrap();
        let (vault, vault_bump) = find_pda(&[&state, &i.token, &orca_mint], &i.ata).unwrap();
        let wallet = [named("A"), named("B"), named("C"), named("ADMIN")];
        let at = |w: &Key, m: &Key| find_pda(&[w, &i.token, m], &i.ata).unwrap().0;
        Cast {
            xorca: i.xorca,
            token: i.token,
            ata: i.ata,
            orca_mint,
            xorca_mint,
            deployer: k("94kZD71sbTKhqhcvY9D9Ra5BsLzKRZgznbBbQpBWmKrT"),
            state,
            state_bump,
            vault,
            vault_bump,
            wallet,
            orca_ata: wallet.map(|w| at(&w, &orca_mint)),
            xorca_ata: wallet.map(|w| at(&w, &xorca_mint)),
        }
    })
}

pub fn pending(owner: &Key, idx: u8) -> Key {
    find_pda(&[b"pending_withdraw", owner, &[idx]], &cast().xorca).unwrap().0
}
pub fn pending_bump(owner: &Key, idx: u8) -> u8 {
    find_pda(&[b"pending_withdraw", owner, &[idx]], &cast().xorca).unwrap().1
}

pub fn token_account(mint: &Key, owner: &Key, amount: u64) -> Acc {
    let mut d = vec![0u8; 165];
    d[0..32].copy_from_slice(mint);
    d[32..64].copy_from_slice(owner);
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    Acc::with(rent_min(165), cast().token, &d)
}
pub fn mint_account(authority: Option<&Key>, supply: u64, decimals: u8, freeze: Option<&Key>) -> Acc {
    let mut d = vec![0u8; 82];
    if let Some(a) = authority {
        d[0] = 1;
        d[4..36].copy_from_slice(a);
    }
    d[36..44].copy_from_slice(&supply.to_le_bytes());
    d[44] = decimals;
    d[45] = 1;
    if let Some(a) = freeze {
        d[46] = 1;
        d[50..82].copy_from_slice(a);
    }
    Acc::with(rent_min(82), cast().token, &d)
}
pub fn state_bytes(escrow: u64, cooldown: i64, authority: &Key) -> Vec<u8> {
    let c = cast();
    let mut d = vec![0u8; 2048];
    d[0] = 1;
    d[6] = c.state_bump;
    d[7] = c.vault_bump;
    d[8..16].copy_from_slice(&escrow.to_le_bytes());
    d[16..24].copy_from_slice(&cooldown.to_le_bytes());
    d[24..56].copy_from_slice(authority);
    d
}
pub fn pending_bytes(owner: &Key, idx: u8, amount: u64, ts: i64) -> Vec<u8> {
    let mut d = vec![0u8; 1024];
    d[0] = 2;
    d[6] = pending_bump(owner, idx);
    d[7] = idx;
    d[8..40].copy_from_slice(owner);
    d[40..48].copy_from_slice(&amount.to_le_bytes());
    d[48..56].copy_from_slice(&ts.to_le_bytes());
    d
}

// ---- ledger views ------------------------------------------------------------------------------------------

impl World {
    pub fn tokens(&self, acct: &Key) -> u64 {
        self.get(acct).map(|a| a.u64(64)).unwrap_or(0)
    }
    pub fn vault(&self) -> u64 {
        self.tokens(&cast().vault)
    }
    pub fn supply(&self) -> u64 {
        self.get(&cast().xorca_mint).map(|a| a.u64(36)).unwrap_or(0)
    }
    pub fn escrow(&self) -> u64 {
        self.get(&cast().state).map(|a| a.u64(8)).unwrap_or(0)
    }
    pub fn cooldown(&self) -> i64 {
        self.get(&cast().state).map(|a| a.u64(16) as i64).unwrap_or(0)
    }
    pub fn authority(&self) -> Key {
        self.get(&cast().state).map(|a| a.key(24)).unwrap_or_default()
    }
    pub fn orca(&self, u: u8) -> u64 {
        self.tokens(&cast().orca_ata[u as usize])
    }
    pub fn xo(&self, u: u8) -> u64 {
        self.tokens(&cast().xorca_ata[u as usize])
    }
    /// Every claim account on the ledger: key, owner, index, amount, release time.
    pub fn claims(&self) -> Vec<(Key, Key, u8, u64, i64)> {
        let c = cast();
        self.accts
            .iter()
            .filter(|(_, a)| a.owner == c.xorca && a.len > 0 && a.u8(0) == 2)
            .map(|(k, a)| (*k, a.key(8), a.u8(7), a.u64(40), a.u64(48) as i64))
            .collect()
    }
    pub fn is_claim(&self, key: &Key) -> bool {
        self.get(key).map(|a| a.owner == cast().xorca && a.u8(0) == 2).unwrap_or(false)
    }
    pub fn set_tokens(&mut self, acct: &Key, amount: u64) {
        let mut a = self.acc(acct);
        a.set(64, &amount.to_le_bytes());
        self.put(*acct, a);
    }
}

/// A world where the mints exist and the users hold ORCA and lamports, before initialization.
pub fn genesis(orca: [u64; USERS], now: i64) -> World {
    let c = cast();
    let mut w = World { accts: vec![], now };
    let total: u64 = orca.iter().fold(0u64, |a, b| a.saturating_add(*b));
    w.put(c.orca_mint, mint_account(None, total, 6, None));
    w.put(c.xorca_mint, mint_account(Some(&c.state), 0, 6, None));
    w.put(c.deployer, Acc::system(10_000_000_000));
    for u in 0..USERS {
        w.put(c.wallet[u], Acc::system(10_000_000_000));
        w.put(c.orca_ata[u], token_account(&c.orca_mint, &c.wallet[u], orca[u]));
        w.put(c.xorca_ata[u], token_account(&c.xorca_mint, &c.wallet[u], 0));
    }
    w
}

/// An initialized, empty pool. Uses the real initialization; should that be broken (which its own check reports),
/// the state is written directly so that the other properties can still be judged.
pub fn pool(orca: [u64; USERS], cooldown: i64, now: i64) -> World {
    let c = cast();
    let w = genesis(orca, now);
    if let Ok(o) = run_tx(&w, &[ix_init(&c.deployer, &c.wallet[ADMIN as usize], cooldown)]) {
        if o.world.acc(&c.state).full() == state_bytes(0, cooldown, &c.wallet[ADMIN as usize])
            && o.world.acc(&c.vault).full() == token_account(&c.orca_mint, &c.state, 0).full()
        {
            return o.world;
        }
    }
    let mut w = w;
    w.put(c.state, Acc::with(rent_min(2048), c.xorca, &state_bytes(0, cooldown, &c.wallet[ADMIN as usize])));
    w.put(c.vault, token_account(&c.orca_mint, &c.state, 0));
    w
}

// ---- instructions, encoded by hand from the program's published interface ------------------------------------

fn m(key: &Key, signer: bool, writable: bool) -> Meta {
    Meta { key: *key, signer, writable }
}
pub fn ix_init(payer: &Key, authority: &Key, cooldown: i64) -> Ix {
    let c = cast();
    let mut data = vec![3u8];
    data.extend_from_slice(&cooldown.to_le_bytes());
    Ix {
        program: c.xorca,
        metas: vec![
            m(payer, true, true),
            m(authority, true, true),
            m(&c.state, false, true),
            m(&c.vault, false, true),
            m(&c.xorca_mint, false, false),
            m(&c.orca_mint, false, false),
            m(&SYSTEM, false, false),
            m(&c.token, false, false),
            m(&c.ata, false, false),
        ],
        data,
    }
}
pub fn ix_stake(w: &Key, orca_acct: &Key, xorca_acct: &Key, x: u64) -> Ix {
    let c = cast();
    let mut data = vec![0u8];
    data.extend_from_slice(&x.to_le_bytes());
    Ix {
        program: c.xorca,
        metas: vec![
            m(w, true, true),
            m(&c.vault, false, true),
            m(orca_acct, false, true),
            m(xorca_acct, false, true),
            m(&c.xorca_mint, false, true),
            m(&c.state, false, false),
            m(&c.orca_mint, false, false),
            m(&c.token, false, false),
        ],
        data,
    }
}
pub fn ix_unstake(w: &Key, xorca_acct: &Key, x: u64, idx: u8) -> Ix {
    let c = cast();
    let mut data = vec![1u8];
    data.extend_from_slice(&x.to_le_bytes());
    data.push(idx);
    Ix {
        program: c.xorca,
        metas: vec![
            m(w, true, true),
            m(&c.state, false, true),
            m(&pending(w, idx), false, true),
            m(xorca_acct, false, true),
            m(&c.xorca_mint, false, true),
            m(&c.orca_mint, false, false),
            m(&c.vault, false, false),
            m(&SYSTEM, false, false),
            m(&c.token, false, false),
        ],
        data,
    }
}
pub fn ix_withdraw(w: &Key, orca_acct: &Key, idx: u8) -> Ix {
    let c = cast();
    Ix {
        program: c.xorca,
        metas: vec![
            m(w, true, true),
            m(&c.state, false, true),
            m(&pending(w, idx), false, true),
            m(orca_acct, false, true),
            m(&c.vault, false, true),
            m(&c.orca_mint, false, false),
            m(&SYSTEM, false, false),
            m(&c.token, false, false),
        ],
        data: vec![2, idx],
    }
}
pub fn ix_set_cooldown(by: &Key, cd: i64) -> Ix {
    let mut data = vec![4u8, 0];
    data.extend_from_slice(&cd.to_le_bytes());
    Ix { program: cast().xorca, metas: vec![m(by, true, true), m(&cast().state, false, true)], data }
}
pub fn ix_set_authority(by: &Key, to: &Key) -> Ix {
    let mut data = vec![4u8, 1];
    data.extend_from_slice(to);
    Ix { program: cast().xorca, metas: vec![m(by, true, true), m(&cast().state, false, true)], data }
}
pub fn ix_token_transfer(from: &Key, to: &Key, auth: &Key, x: u64) -> Ix {
    let mut data = vec![3u8];
    data.extend_from_slice(&x.to_le_bytes());
    Ix { program: cast().token, metas: vec![m(from, false, true), m(to, false, true), m(auth, true, false)], data }
}
pub fn ix_token_burn(acct: &Key, mint: &Key, auth: &Key, x: u64) -> Ix {
    let mut data = vec![8u8];
    data.extend_from_slice(&x.to_le_bytes());
    Ix { program: cast().token, metas: vec![m(acct, false, true), m(mint, false, true), m(auth, true, false)], data }
}
pub fn ix_sys_transfer(from: &Key, to: &Key, lamports: u64) -> Ix {
    let mut data = 2u32.to_le_bytes().to_vec();
    data.extend_from_slice(&lamports.to_le_bytes());
    Ix { program: SYSTEM, metas: vec![m(from, true, true), m(to, false, true)], data }
}
pub fn ix_create_ata(payer: &Key, wallet: &Key, mint: &Key) -> Ix {
    let c = cast();
    let a = find_pda(&[wallet, &c.token, mint], &c.ata).unwrap().0;
    Ix {
        program: c.ata,
        metas: vec![
            m(payer, true, true),
            m(&a, false, true),
            m(wallet, false, false),
            m(mint, false, false),
            m(&SYSTEM, false, false),
            m(&c.token, false, false),
        ],
        data: vec![1],
    }
}

// ---- operations ----------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Amt {
    Fix(u64),
    All,
    Half,
    Over, // one more than the balance
    /// All but this many.
    But(u64),
}
impl Amt {
    pub fn of(&self, bal: u64) -> u64 {
        match *self {
            Amt::Fix(n) => n,
            Amt::All => bal,
            Amt::Half => bal / 2,
            Amt::Over => bal.saturating_add(1),
            Amt::But(n) => bal.saturating_sub(n),
        }
    }
}
impl fmt::Display for Amt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Amt::Fix(n) => write!(f, "{n}"),
            a => write!(f, "{a:?}"),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Stake(u8, Amt),
    Unstake(u8, Amt, u8),
    Withdraw(u8, u8),
    SetCd(u8, i64),
    SetAuth(u8, u8),
    /// ORCA sent straight to the vault.
    Donate(u8, Amt),
    /// xORCA burned directly with the token program.
    BurnX(u8, Amt),
    XferX(u8, u8, Amt),
    /// Lamports sent by the first user to the claim address (second user, index).
    Prefund(u8, u8, u8, u64),
    /// The same without going through a transaction (reaches balances below rent exemption).
    PrefundRaw(u8, u8, u64),
    Warp(i64),
    /// Initialization, with payer (255 = the deployer) and authority.
    Init(u8, u8, i64),
    /// The first user withdraws the second user's claim to his own account.
    Steal(u8, u8, u8),
    /// Several operations in one atomic transaction.
    Tx(Vec<Op>),
}
impl fmt::Display for Op {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let n = |u: &u8| match u {
            0..=3 => ["A", "B", "C", "ADMIN"][*u as usize].to_string(),
            100..=131 => format!("the key with a single 1 in byte {}", u - 100),
            132..=163 => format!("a key that is not ADMIN's in byte {}", u - 132),
            200..=208 => ["the zero key", "the key of ones", "the pool", "the vault", "the program", "the xORCA mint", "the ORCA mint", "A's claim #0", "A's ORCA account"][*u as usize - 200].to_string(),
            _ => "DEPLOYER".to_string(),
        };
        match self {
            Op::Stake(u, a) => write!(f, "{} stakes {a}", n(u)),
            Op::Unstake(u, a, i) => write!(f, "{} unstakes {a} as #{i}", n(u)),
            Op::Withdraw(u, i) => write!(f, "{} withdraws #{i}", n(u)),
            Op::SetCd(u, c) => write!(f, "{} sets cooldown {c}", n(u)),
            Op::SetAuth(u, t) => write!(f, "{} sets authority {}", n(u), n(t)),
            Op::Donate(u, a) => write!(f, "{} sends {a} ORCA to the vault", n(u)),
            Op::BurnX(u, a) => write!(f, "{} burns {a} xORCA", n(u)),
            Op::XferX(u, t, a) => write!(f, "{} sends {a} xORCA to {}", n(u), n(t)),
            Op::Prefund(b, u, i, l) => write!(f, "{} sends {l} lamports to claim address {}#{i}", n(b), n(u)),
            Op::PrefundRaw(u, i, l) => write!(f, "claim address {}#{i} holds {l} lamports", n(u)),
            Op::Warp(d) => write!(f, "{d}s pass"),
            Op::Init(p, a, c) => write!(f, "{} initializes with authority {} and cooldown {c}", n(p), n(a)),
            Op::Steal(t, u, i) => write!(f, "{} withdraws {}'s #{i}", n(t), n(u)),
            Op::Tx(v) => write!(f, "one transaction [{}]", v.iter().map(|o| o.to_string()).collect::<Vec<_>>().join("; ")),
        }
    }
}
impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Stake(..) => "stake",
            Op::Unstake(..) => "unstake",
            Op::Withdraw(..) => "withdraw",
            Op::SetCd(..) => "set_cooldown",
            Op::SetAuth(..) => "set_authority",
            Op::Donate(..) => "donate",
            Op::BurnX(..) => "burn",
            Op::XferX(..) => "transfer_xorca",
            Op::Prefund(..) => "prefund",
            Op::PrefundRaw(..) => "prefund_raw",
            Op::Warp(..) => "warp",
            Op::Init(..) => "initialize",
            Op::Steal(..) => "steal",
            Op::Tx(..) => "multi",
        }
    }
}

/// Keys beside the users and the deployer: nearly nobody, nearly the authority, and the accounts around the pool.
pub const NOBODIES: std::ops::Range<u8> = 100..132;
pub const ALMOST_ADMIN: std::ops::Range<u8> = 132..164;
pub const THINGS: std::ops::Range<u8> = 200..210;

pub fn who(u: u8) -> Key {
    let c = cast();
    match u {
        100..=131 => std::array::from_fn(|i| (i == u as usize - 100) as u8),
        132..=163 => {
            let mut k = c.wallet[ADMIN as usize];
            k[u as usize - 132] ^= 1;
            k
        }
        200 => [0; 32],
        201 => [255; 32],
        202 => c.state,
        203 => c.vault,
        204 => c.xorca,
        205 => c.xorca_mint,
        206 => c.orca_mint,
        207 => pending(&c.wallet[0], 0),
        208 => c.orca_ata[0],
        209 => c.deployer,
        u if (u as usize) < USERS => c.wallet[u as usize],
        _ => c.deployer,
    }
}

/// The instruction of one (non-compound, non-environment) operation and its resolved amount.
pub fn build(op: &Op, w: &World) -> Option<(Ix, u64)> {
    let c = cast();
    Some(match op {
        Op::Stake(u, a) => {
            let x = a.of(w.orca(*u));
            (ix_stake(&who(*u), &c.orca_ata[*u as usize], &c.xorca_ata[*u as usize], x), x)
        }
        Op::Unstake(u, a, i) => {
            let x = a.of(w.xo(*u));
            (ix_unstake(&who(*u), &c.xorca_ata[*u as usize], x, *i), x)
        }
        Op::Withdraw(u, i) => (ix_withdraw(&who(*u), &c.orca_ata[*u as usize], *i), 0),
        Op::SetCd(u, cd) => (ix_set_cooldown(&who(*u), *cd), 0),
        Op::SetAuth(u, t) => (ix_set_authority(&who(*u), &who(*t)), 0),
        Op::Donate(u, a) => {
            let x = a.of(w.orca(*u));
            (ix_token_transfer(&c.orca_ata[*u as usize], &c.vault, &who(*u), x), x)
        }
        Op::BurnX(u, a) => {
            let x = a.of(w.xo(*u));
            (ix_token_burn(&c.xorca_ata[*u as usize], &c.xorca_mint, &who(*u), x), x)
        }
        Op::XferX(u, t, a) => {
            let x = a.of(w.xo(*u));
            (ix_token_transfer(&c.xorca_ata[*u as usize], &c.xorca_ata[*t as usize], &who(*u), x), x)
        }
        Op::Prefund(b, u, i, l) => (ix_sys_transfer(&who(*b), &pending(&who(*u), *i), *l), *l),
        Op::Init(p, a, cd) => (ix_init(&who(*p), &who(*a), *cd), 0),
        Op::Steal(t, u, i) => {
            let mut ix = ix_withdraw(&who(*t), &c.orca_ata[*t as usize], *i);
            ix.metas[2].key = pending(&who(*u), *i);
            (ix, 0)
        }
        Op::PrefundRaw(..) | Op::Warp(..) | Op::Tx(..) => return None,
    })
}

/// What the explorer remembers about history, independently of what the program stores.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Ghost {
    /// (user, index) -> (amount promised, release time, lamports held by the claim account)
    pub claims: BTreeMap<(u8, u8), (u64, i64, u64)>,
    pub cooldown: i64,
    pub authority: Key,
}
impl Ghost {
    pub fn hash(&self, h: &mut Mix) {
        h.u64(self.claims.len() as u64);
        for ((u, i), (a, t, l)) in &self.claims {
            h.u64((*u as u64) << 8 | *i as u64);
            h.u64(*a);
            h.u64(*t as u64);
            h.u64(*l);
        }
        h.u64(self.cooldown as u64);
        h.bytes(&self.authority[..8]);
    }
    pub fn of(w: &World) -> Ghost {
        Ghost { claims: BTreeMap::new(), cooldown: w.cooldown(), authority: w.authority() }
    }
}
