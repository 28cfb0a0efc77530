//! A small exact model of the Solana runtime: accounts, transactions, the input-buffer ABI, CPI with
//! privilege and signer checks, the ownership/lamport rules, the System and Associated-Token programs, and the
//! real SPL Token processor. `conf/` replays explored traces against LiteSVM to validate it.
use crate::host::{self, Host, Key, Meta, Ran};
use solana_program::account_info::AccountInfo;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;

pub const SYSTEM: Key = [0; 32];
pub const MAX_GROW: usize = 10_240;

pub fn k(s: &str) -> Key {
    s.parse::<Pubkey>().unwrap().to_bytes()
}

/// Trailing zero bytes of `data` are not stored; `len` is the account's data length.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Acc {
    pub lamports: u64,
    pub owner: Key,
    pub data: Vec<u8>,
    pub len: usize,
    pub exec: bool,
}

impl Acc {
    pub fn system(lamports: u64) -> Acc {
        Acc { lamports, owner: SYSTEM, data: vec![], len: 0, exec: false }
    }
    pub fn with(lamports: u64, owner: Key, data: &[u8]) -> Acc {
        Acc { lamports, owner, data: trim(data), len: data.len(), exec: false }
    }
    pub fn program() -> Acc {
        Acc { lamports: 1, owner: k("BPFLoader2111111111111111111111111111111111"), data: vec![], len: 0, exec: true }
    }
    pub fn full(&self) -> Vec<u8> {
        let mut v = self.data.clone();
        v.resize(self.len, 0);
        v
    }
    pub fn is_void(&self) -> bool {
        self.lamports == 0 && self.len == 0 && self.owner == SYSTEM && !self.exec
    }
    pub fn u64(&self, off: usize) -> u64 {
        let mut b = [0u8; 8];
        for i in 0..8 {
            b[i] = self.data.get(off + i).copied().unwrap_or(0);
        }
        u64::from_le_bytes(b)
    }
    pub fn u8(&self, off: usize) -> u8 {
        self.data.get(off).copied().unwrap_or(0)
    }
    pub fn key(&self, off: usize) -> Key {
        let mut b = [0u8; 32];
        for i in 0..32 {
            b[i] = self.data.get(off + i).copied().unwrap_or(0);
        }
        b
    }
    pub fn set(&mut self, off: usize, bytes: &[u8]) {
        let mut f = self.full();
        f[off..off + bytes.len()].copy_from_slice(bytes);
        self.data = trim(&f);
    }
}

pub fn trim(d: &[u8]) -> Vec<u8> {
    let mut n = d.len();
    while n > 0 && d[n - 1] == 0 {
        n -= 1;
    }
    d[..n].to_vec()
}

/// The ledger: accounts sorted by key (absent = empty System account) and the clock.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct World {
    pub accts: Vec<(Key, Acc)>,
    pub now: i64,
}

impl World {
    pub fn get(&self, key: &Key) -> Option<&Acc> {
        self.accts.binary_search_by(|e| e.0.cmp(key)).ok().map(|i| &self.accts[i].1)
    }
    pub fn acc(&self, key: &Key) -> Acc {
        self.get(key).cloned().unwrap_or_else(|| Acc::system(0))
    }
    pub fn put(&mut self, key: Key, acc: Acc) {
        match self.accts.binary_search_by(|e| e.0.cmp(&key)) {
            Ok(i) if acc.is_void() => {
                self.accts.remove(i);
            }
            Ok(i) => self.accts[i].1 = acc,
            Err(_) if acc.is_void() => {}
            Err(i) => self.accts.insert(i, (key, acc)),
        }
    }
    pub fn lamports(&self, key: &Key) -> u64 {
        self.get(key).map(|a| a.lamports).unwrap_or(0)
    }
    pub fn hash(&self) -> u128 {
        let mut h = Mix::new();
        h.u64(self.now as u64);
        for (k, a) in &self.accts {
            h.bytes(&k[..8]);
            h.u64(a.lamports);
            h.bytes(&a.owner[..8]);
            h.u64(a.len as u64);
            h.bytes(&a.data);
        }
        h.done()
    }
}

/// 128-bit mixing hash for state deduplication.
pub struct Mix(u64, u64);
impl Mix {
    pub fn new() -> Mix {
        Mix(0x9E37_79B9_7F4A_7C15, 0xD1B5_4A32_D192_ED03)
    }
    pub fn u64(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0xFF51_AFD7_ED55_8CCD);
        self.0 ^= self.0 >> 32;
        self.1 = (self.1.rotate_left(29) ^ x).wrapping_mul(0xC4CE_B9FE_1A85_EC53);
        self.1 ^= self.1 >> 29;
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.u64(b.len() as u64);
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.u64(u64::from_le_bytes(w));
        }
    }
    pub fn done(mut self) -> u128 {
        self.u64(0x1234_5678);
        self.u64(0x8765_4321);
        ((self.0 as u128) << 64) | self.1 as u128
    }
}
impl Default for Mix {
    fn default() -> Self {
        Self::new()
    }
}

#[derive(Clone, Debug)]
pub struct Ix {
    pub program: Key,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TxErr {
    /// The staking program returned this error value.
    Program(u64),
    /// A program it called, or the runtime, refused.
    Cpi(String),
    /// The runtime refused what the program had done, or the transaction itself.
    Runtime(String),
    /// The staking program crashed.
    Panic(String),
}

pub struct TxOut {
    pub world: World,
    pub events: Vec<Vec<u8>>,
    /// For transactions of several instructions: the ledger and the number of events after each.
    pub snaps: Vec<(World, usize)>,
}

pub fn rent_min(len: usize) -> u64 {
    (len as u64 + 128) * 3480 * 2
}

struct Slot {
    key: Key,
    pre: Acc,
    cur: Acc,
}

struct Ctx {
    slots: Vec<Slot>,
    now: i64,
    events: Vec<Vec<u8>>,
    ids: Ids,
}

#[derive(Clone, Copy)]
pub struct Ids {
    pub xorca: Key,
    pub token: Key,
    pub ata: Key,
}
pub fn ids() -> Ids {
    thread_local!(static I: Ids = Ids {
        xorca: k("StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLT"),
        token: k("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA"),
        ata: k("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL"),
    });
    I.with(|i| *i)
}

impl Ctx {
    fn ix(&self, key: &Key) -> Option<usize> {
        self.slots.iter().position(|s| s.key == *key)
    }
    /// Apply a change of one account made by `program`, enforcing the runtime's account rules.
    fn apply(&mut self, i: usize, program: &Key, writable: bool, lamports: u64, owner: Key, data: Vec<u8>, len: usize) -> Result<(), String> {
        let a = &mut self.slots[i].cur;
        if a.lamports == lamports && a.owner == owner && a.len == len && a.data == data {
            return Ok(());
        }
        if a.exec {
            return Err("ExecutableModified".into());
        }
        if lamports != a.lamports {
            if !writable {
                return Err("ReadonlyLamportChange".into());
            }
            if lamports < a.lamports && a.owner != *program {
                return Err("ExternalAccountLamportSpend".into());
            }
        }
        if a.len != len || a.data != data {
            if !writable {
                return Err("ReadonlyDataModified".into());
            }
            if a.owner != *program {
                return Err("ExternalAccountDataModified".into());
            }
        }
        if owner != a.owner {
            if !writable || a.owner != *program {
                return Err("ModifiedProgramId".into());
            }
            if data.iter().any(|b| *b != 0) {
                return Err("ModifiedProgramId(data not zeroed)".into());
            }
        }
        a.lamports = lamports;
        a.owner = owner;
        a.data = data;
        a.len = len;
        Ok(())
    }
    fn total(&self) -> u128 {
        self.slots.iter().map(|s| s.cur.lamports as u128).sum()
    }
}

/// Where each instruction account lives in the input buffer.
pub struct Layout {
    /// Per distinct account: key, signer, writable, offset of its 88-byte header, its data length at the start.
    pub accts: Vec<(Key, bool, bool, usize, usize)>,
    pub size: usize,
}

/// Serialize an instruction exactly as the runtime's aligned loader ABI does.
pub fn serialize<'a>(
    buf: &mut Vec<u64>,
    program: &Key,
    metas: &[Meta],
    data: &[u8],
    get: impl Fn(&Key) -> std::borrow::Cow<'a, Acc>,
) -> Layout {
    let mut size = 8usize;
    let mut uniq: Vec<Key> = vec![];
    let mut lens: Vec<usize> = vec![];
    let mut dup: Vec<Option<usize>> = vec![];
    for m in metas {
        match uniq.iter().position(|x| *x == m.key) {
            Some(i) => {
                dup.push(Some(i));
                size += 8;
            }
            None => {
                dup.push(None);
                uniq.push(m.key);
                let n = get(&m.key).len;
                lens.push(n);
                size += 88 + n + MAX_GROW;
                size = (size + 7) & !7;
                size += 8;
            }
        }
    }
    let end = size;
    size += 8 + data.len() + 32;
    buf.clear();
    buf.resize(size / 8 + 2, 0);
    let b: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, buf.len() * 8) };
    b[0..8].copy_from_slice(&(metas.len() as u64).to_le_bytes());
    let mut o = 8;
    let mut accts = vec![];
    let mut first: Vec<usize> = vec![];
    for (j, m) in metas.iter().enumerate() {
        if let Some(i) = dup[j] {
            b[o] = first[i] as u8;
            o += 8;
            continue;
        }
        first.push(j);
        let a = get(&m.key);
        // Privileges are per account over the whole instruction.
        let signer = metas.iter().any(|x| x.key == m.key && x.signer);
        let writable = metas.iter().any(|x| x.key == m.key && x.writable);
        accts.push((m.key, signer, writable, o, a.len));
        b[o] = 0xff;
        b[o + 1] = signer as u8;
        b[o + 2] = writable as u8;
        b[o + 3] = a.exec as u8;
        b[o + 8..o + 40].copy_from_slice(&m.key);
        b[o + 40..o + 72].copy_from_slice(&a.owner);
        b[o + 72..o + 80].copy_from_slice(&a.lamports.to_le_bytes());
        b[o + 80..o + 88].copy_from_slice(&(a.len as u64).to_le_bytes());
        b[o + 88..o + 88 + a.data.len()].copy_from_slice(&a.data);
        o += 88 + a.len + MAX_GROW;
        o = (o + 7) & !7;
        b[o..o + 8].copy_from_slice(&u64::MAX.to_le_bytes());
        o += 8;
    }
    assert_eq!(o, end);
    b[o..o + 8].copy_from_slice(&(data.len() as u64).to_le_bytes());
    b[o + 8..o + 8 + data.len()].copy_from_slice(data);
    b[o + 8 + data.len()..o + 40 + data.len()].copy_from_slice(program);
    Layout { accts, size }
}

/// One account as the program left it in the buffer: lamports, owner, data (trimmed), data length.
pub fn read_back(b: &[u8], o: usize) -> (u64, Key, Vec<u8>, usize) {
    let u = |x: usize| u64::from_le_bytes(b[x..x + 8].try_into().unwrap());
    let len = u(o + 80) as usize;
    let owner: Key = b[o + 40..o + 72].try_into().unwrap();
    let end = (o + 88 + len).min(b.len());
    (u(o + 72), owner, trim(&b[o + 88..end]), len)
}

struct Frame<'a> {
    ctx: &'a mut Ctx,
    program: Key,
    layout: Layout,
    buf: *mut u8,
    size: usize,
}

impl Frame<'_> {
    fn bytes(&mut self) -> &'static mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.buf, self.size) }
    }
    /// Take over what the program wrote into its input buffer.
    fn pull(&mut self) -> Result<(), String> {
        let b = self.bytes();
        for (key, _, writable, o, len0) in &self.layout.accts {
            let (lamports, owner, data, len) = read_back(b, *o);
            if len > len0 + MAX_GROW {
                return Err("InvalidRealloc".into());
            }
            let i = self.ctx.ix(key).unwrap();
            self.ctx.apply(i, &self.program, *writable, lamports, owner, data, len)?;
        }
        Ok(())
    }
    /// Show the program what a callee changed.
    fn push(&mut self) -> Result<(), String> {
        let b = self.bytes();
        for (key, _, _, o, len0) in &self.layout.accts {
            let a = &self.ctx.slots[self.ctx.ix(key).unwrap()].cur;
            if a.len > len0 + MAX_GROW {
                return Err("InvalidRealloc".into());
            }
            b[o + 40..o + 72].copy_from_slice(&a.owner);
            b[o + 72..o + 80].copy_from_slice(&a.lamports.to_le_bytes());
            let old = u64::from_le_bytes(b[o + 80..o + 88].try_into().unwrap()) as usize;
            b[o + 80..o + 88].copy_from_slice(&(a.len as u64).to_le_bytes());
            let hi = old.max(a.len).min(len0 + MAX_GROW);
            let d = &mut b[o + 88..o + 88 + hi];
            d.fill(0);
            d[..a.data.len()].copy_from_slice(&a.data);
        }
        Ok(())
    }
}

impl Host for Frame<'_> {
    fn unix_timestamp(&self) -> i64 {
        self.ctx.now
    }
    fn log_data(&mut self, fields: Vec<Vec<u8>>) {
        self.ctx.events.push(if fields.len() == 1 { fields.into_iter().next().unwrap() } else { fields.concat() });
    }
    fn invoke(&mut self, program: Key, metas: Vec<Meta>, data: Vec<u8>, signers: Vec<Vec<Vec<u8>>>) -> Result<(), String> {
        self.pull()?;
        let mut pdas: Vec<Key> = vec![];
        for s in &signers {
            let v: Vec<&[u8]> = s.iter().map(|x| x.as_slice()).collect();
            pdas.push(host::create_pda(&v, &self.program).ok_or("InvalidSeeds")?);
        }
        let find = |key: &Key| self.layout.accts.iter().find(|a| a.0 == *key);
        let mut cm: Vec<Meta> = vec![];
        for m in &metas {
            let (_, s, w, _, _) = find(&m.key).ok_or("MissingAccount")?;
            // Duplicates in the callee's list share their privileges.
            let want_w = metas.iter().any(|x| x.key == m.key && x.writable);
            let want_s = metas.iter().any(|x| x.key == m.key && x.signer);
            if want_w && !w {
                return Err("PrivilegeEscalation(writable)".into());
            }
            if want_s && !s && !pdas.contains(&m.key) {
                return Err("PrivilegeEscalation(signer)".into());
            }
            cm.push(Meta { key: m.key, signer: want_s, writable: want_w });
        }
        let i = self.ctx.ix(&program).ok_or("MissingAccount(program)")?;
        find(&program).ok_or("MissingAccount(program)")?;
        if !self.ctx.slots[i].cur.exec {
            return Err("AccountNotExecutable".into());
        }
        native(self.ctx, &program, &cm, &data)?;
        self.push()
    }
}

fn native(ctx: &mut Ctx, program: &Key, metas: &[Meta], data: &[u8]) -> Result<(), String> {
    let before = ctx.total();
    let r = if *program == SYSTEM {
        system(ctx, metas, data)
    } else if *program == ctx.ids.token {
        token(ctx, metas, data)
    } else if *program == ctx.ids.ata {
        ata(ctx, metas, data)
    } else {
        Err("UnsupportedProgramId".into())
    };
    r?;
    if ctx.total() != before {
        return Err("UnbalancedInstruction".into());
    }
    Ok(())
}

fn rd_u64(d: &[u8], o: usize) -> Result<u64, String> {
    d.get(o..o + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).ok_or_else(|| "InvalidInstructionData".into())
}
fn rd_key(d: &[u8], o: usize) -> Result<Key, String> {
    d.get(o..o + 32).map(|x| x.try_into().unwrap()).ok_or_else(|| "InvalidInstructionData".into())
}

fn sys_transfer(ctx: &mut Ctx, from: &Meta, to: &Meta, lamports: u64) -> Result<(), String> {
    if !from.signer {
        return Err("MissingRequiredSignature(transfer)".into());
    }
    let f = ctx.ix(&from.key).ok_or("MissingAccount")?;
    if ctx.slots[f].cur.len != 0 {
        return Err("InvalidArgument(from carries data)".into());
    }
    if lamports > ctx.slots[f].cur.lamports {
        return Err("Custom(1): insufficient lamports".into());
    }
    let a = ctx.slots[f].cur.clone();
    ctx.apply(f, &SYSTEM, from.writable, a.lamports - lamports, a.owner, a.data, a.len)?;
    let t = ctx.ix(&to.key).ok_or("MissingAccount")?;
    let a = ctx.slots[t].cur.clone();
    let l = a.lamports.checked_add(lamports).ok_or("ArithmeticOverflow")?;
    ctx.apply(t, &SYSTEM, to.writable, l, a.owner, a.data, a.len)
}
fn sys_allocate(ctx: &mut Ctx, m: &Meta, space: u64) -> Result<(), String> {
    if !m.signer {
        return Err("MissingRequiredSignature(allocate)".into());
    }
    let i = ctx.ix(&m.key).ok_or("MissingAccount")?;
    let a = ctx.slots[i].cur.clone();
    if a.len != 0 || a.owner != SYSTEM {
        return Err("Custom(0): account already in use".into());
    }
    if space > 10 * 1024 * 1024 {
        return Err("Custom(3): invalid data length".into());
    }
    ctx.apply(i, &SYSTEM, m.writable, a.lamports, a.owner, vec![], space as usize)
}
fn sys_assign(ctx: &mut Ctx, m: &Meta, owner: Key) -> Result<(), String> {
    let i = ctx.ix(&m.key).ok_or("MissingAccount")?;
    let a = ctx.slots[i].cur.clone();
    if a.owner == owner {
        return Ok(());
    }
    if !m.signer {
        return Err("MissingRequiredSignature(assign)".into());
    }
    ctx.apply(i, &SYSTEM, m.writable, a.lamports, owner, a.data, a.len)
}

fn system(ctx: &mut Ctx, metas: &[Meta], data: &[u8]) -> Result<(), String> {
    let tag = data.get(0..4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).ok_or("InvalidInstructionData")?;
    let m = |i: usize| metas.get(i).ok_or_else(|| "NotEnoughAccountKeys".to_string());
    match tag {
        0 => {
            let (lamports, space, owner) = (rd_u64(data, 4)?, rd_u64(data, 12)?, rd_key(data, 20)?);
            let t = ctx.ix(&m(1)?.key).ok_or("MissingAccount")?;
            if ctx.slots[t].cur.lamports > 0 {
                return Err("Custom(0): account already in use".into());
            }
            sys_allocate(ctx, m(1)?, space)?;
            sys_assign(ctx, m(1)?, owner)?;
            sys_transfer(ctx, m(0)?, m(1)?, lamports)
        }
        1 => sys_assign(ctx, m(0)?, rd_key(data, 4)?),
        2 => sys_transfer(ctx, m(0)?, m(1)?, rd_u64(data, 4)?),
        8 => sys_allocate(ctx, m(0)?, rd_u64(data, 4)?),
        _ => Err("InvalidInstructionData".into()),
    }
}

fn token(ctx: &mut Ctx, metas: &[Meta], data: &[u8]) -> Result<(), String> {
    let id = Pubkey::new_from_array(ctx.ids.token);
    let mut uniq: Vec<usize> = vec![];
    for m in metas {
        let i = ctx.ix(&m.key).ok_or("MissingAccount")?;
        if !uniq.contains(&i) {
            uniq.push(i);
        }
    }
    let keys: Vec<Pubkey> = uniq.iter().map(|i| Pubkey::new_from_array(ctx.slots[*i].key)).collect();
    let owners: Vec<Pubkey> = uniq.iter().map(|i| Pubkey::new_from_array(ctx.slots[*i].cur.owner)).collect();
    let mut lam: Vec<u64> = uniq.iter().map(|i| ctx.slots[*i].cur.lamports).collect();
    let mut dat: Vec<Vec<u8>> = uniq.iter().map(|i| ctx.slots[*i].cur.full()).collect();
    let exec: Vec<bool> = uniq.iter().map(|i| ctx.slots[*i].cur.exec).collect();
    {
        let mut base: Vec<AccountInfo> = vec![];
        for (n, (l, d)) in lam.iter_mut().zip(dat.iter_mut()).enumerate() {
            base.push(AccountInfo::new(&keys[n], false, false, l, d, &owners[n], exec[n], 0));
        }
        let infos: Vec<AccountInfo> = metas
            .iter()
            .map(|m| {
                let n = uniq.iter().position(|i| ctx.slots[*i].key == m.key).unwrap();
                let mut a = base[n].clone();
                a.is_signer = m.signer;
                a.is_writable = m.writable;
                a
            })
            .collect();
        spl_token::processor::Processor::process(&id, &infos, data).map_err(|e| format!("token: {e:?}"))?;
    }
    for (n, i) in uniq.iter().enumerate() {
        let w = metas.iter().any(|m| m.key == ctx.slots[*i].key && m.writable);
        let owner = ctx.slots[*i].cur.owner;
        ctx.apply(*i, &id.to_bytes(), w, lam[n], owner, trim(&dat[n]), dat[n].len())?;
    }
    Ok(())
}

fn ata(ctx: &mut Ctx, metas: &[Meta], data: &[u8]) -> Result<(), String> {
    let idem = match data {
        [] | [0] => false,
        [1] => true,
        _ => return Err("InvalidInstructionData".into()),
    };
    if metas.len() < 6 {
        return Err("NotEnoughAccountKeys".into());
    }
    let (funder, acct, wallet, mint, tokp) = (&metas[0], &metas[1], metas[2].key, metas[3].key, metas[5].key);
    let (addr, _) = host::find_pda(&[&wallet, &tokp, &mint], &ctx.ids.ata).ok_or("InvalidSeeds")?;
    if addr != acct.key {
        return Err("InvalidSeeds".into());
    }
    let i = ctx.ix(&acct.key).ok_or("MissingAccount")?;
    let a = ctx.slots[i].cur.clone();
    if idem && a.owner == tokp && a.len == 165 && a.u8(108) != 0 {
        if a.key(32) != wallet {
            return Err("ata: InvalidOwner".into());
        }
        if a.key(0) != mint {
            return Err("ata: InvalidAccountData".into());
        }
        return Ok(());
    }
    if a.owner != SYSTEM {
        return Err("ata: IllegalOwner".into());
    }
    let mi = ctx.ix(&mint).ok_or("MissingAccount")?;
    if ctx.slots[mi].cur.owner != ctx.ids.token || ctx.slots[mi].cur.len != 82 || tokp != ctx.ids.token {
        return Err("ata: InvalidMint".into());
    }
    // (GetAccountDataSize and InitializeAccount3 read it.)
    if spl_token::state::Mint::unpack(&ctx.slots[mi].cur.full()).is_err() {
        return Err("ata: InvalidMint".into());
    }
    let need = rent_min(165).max(1);
    let am = Meta { key: acct.key, signer: true, writable: acct.writable };
    if a.lamports > 0 {
        let lack = need.saturating_sub(a.lamports);
        if lack > 0 {
            sys_transfer(ctx, funder, &am, lack)?;
        }
    } else {
        sys_transfer(ctx, funder, &am, need)?;
    }
    sys_allocate(ctx, &am, 165)?;
    sys_assign(ctx, &am, tokp)?;
    let mut d = vec![0u8; 165];
    d[0..32].copy_from_slice(&mint);
    d[32..64].copy_from_slice(&wallet);
    d[108] = 1;
    let c = ctx.slots[i].cur.clone();
    ctx.apply(i, &tokp, acct.writable, c.lamports, c.owner, trim(&d), 165)
}

/// Accounts every world contains: the loaded programs.
pub fn static_program(key: &Key) -> bool {
    let i = ids();
    *key == SYSTEM || *key == i.token || *key == i.ata || *key == i.xorca
}

/// Accounts that transactions can name as writable in vain: builtin programs and sysvars.
pub fn reserved(key: &Key) -> bool {
    thread_local!(static R: Vec<Key> = [
        "11111111111111111111111111111111", "BPFLoader1111111111111111111111111111111111", "BPFLoader2111111111111111111111111111111111",
        "BPFLoaderUpgradeab1e11111111111111111111111", "ComputeBudget111111111111111111111111111111", "Stake11111111111111111111111111111111111111",
        "Vote111111111111111111111111111111111111111", "Sysvar1111111111111111111111111111111111111", "NativeLoader1111111111111111111111111111111",
        "SysvarC1ock11111111111111111111111111111111", "SysvarRent111111111111111111111111111111111",
        "SysvarEpochSchedu1e111111111111111111111111", "SysvarRecentB1ockHashes11111111111111111111",
        "SysvarS1otHashes111111111111111111111111111", "SysvarS1otHistory11111111111111111111111111",
        "SysvarStakeHistory1111111111111111111111111", "SysvarFees111111111111111111111111111111111",
        "Sysvar1nstructions1111111111111111111111111", "SysvarRewards111111111111111111111111111111",
    ].iter().map(|s| k(s)).collect());
    R.with(|r| r.contains(key))
}

thread_local!(static BUF: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) });

/// Shown every transaction executed, and its outcome (`conf/`).
pub type Observer = dyn Fn(&World, &[Ix], &Result<TxOut, TxErr>) + Send + Sync;
pub static OBSERVER: std::sync::OnceLock<Box<Observer>> = std::sync::OnceLock::new();

/// Execute a transaction atomically.
pub fn run_tx(world: &World, ixs: &[Ix]) -> Result<TxOut, TxErr> {
    let out = execute(world, ixs);
    if let Some(f) = OBSERVER.get() {
        f(world, ixs, &out);
    }
    out
}

fn execute(world: &World, ixs: &[Ix]) -> Result<TxOut, TxErr> {
    let ids = ids();
    let mut ctx = Ctx { slots: vec![], now: world.now, events: vec![], ids };
    for ix in ixs {
        for key in ix.metas.iter().map(|m| &m.key).chain(std::iter::once(&ix.program)) {
            if ctx.ix(key).is_none() {
                let a = match world.get(key) {
                    Some(a) => a.clone(),
                    None if static_program(key) => Acc::program(),
                    None => Acc::system(0),
                };
                ctx.slots.push(Slot { key: *key, pre: a.clone(), cur: a });
            }
        }
    }
    // Privileges are a property of the account in the whole transaction message.
    let signer = |key: &Key| ixs.iter().any(|i| i.metas.iter().any(|m| m.key == *key && m.signer));
    // (Nobody may write to a builtin, a sysvar or a program that is called.)
    let writable = |key: &Key| {
        ixs.iter().any(|i| i.metas.iter().any(|m| m.key == *key && m.writable)) && !reserved(key) && ixs.iter().all(|i| i.program != *key)
    };
    let mut snaps = vec![];
    for (n, ix) in ixs.iter().enumerate() {
        if n > 0 {
            let mut w = world.clone();
            for s in ctx.slots.iter().filter(|s| s.cur != s.pre) {
                w.put(s.key, s.cur.clone());
            }
            snaps.push((w, ctx.events.len()));
        }
        let metas: Vec<Meta> =
            ix.metas.iter().map(|m| Meta { key: m.key, signer: signer(&m.key), writable: writable(&m.key) }).collect();
        if ix.program != ids.xorca {
            native(&mut ctx, &ix.program, &metas, &ix.data).map_err(TxErr::Cpi)?;
            continue;
        }
        let before = ctx.total();
        let mut buf = BUF.with(|b| std::mem::take(&mut *b.borrow_mut()));
        let layout = serialize(&mut buf, &ix.program, &metas, &ix.data, |key| {
            std::borrow::Cow::Borrowed(&ctx.slots.iter().find(|s| s.key == *key).unwrap().cur)
        });
        let ptr = buf.as_mut_ptr() as *mut u8;
        let size = buf.len() * 8;
        let mut f = Frame { ctx: &mut ctx, program: ix.program, layout, buf: ptr, size };
        let ran = host::run_program(&mut f, ptr);
        let r = match ran {
            Ran::Code(0) => f.pull().map_err(TxErr::Runtime),
            Ran::Code(c) => Err(TxErr::Program(c)),
            Ran::Cpi(e) => Err(TxErr::Cpi(e)),
            Ran::Panic(e) => Err(TxErr::Panic(e)),
        };
        BUF.with(|b| *b.borrow_mut() = buf);
        r?;
        if ctx.total() != before {
            return Err(TxErr::Runtime("UnbalancedInstruction".into()));
        }
    }
    // Rent states: an account may not end up rent-paying unless it already was, without growing.
    for s in &ctx.slots {
        if !writable(&s.key) || s.cur.exec {
            continue;
        }
        let paying = |a: &Acc| a.lamports > 0 && a.lamports < rent_min(a.len);
        if paying(&s.cur) && !(paying(&s.pre) && s.pre.len == s.cur.len && s.cur.lamports <= s.pre.lamports) {
            return Err(TxErr::Runtime("InsufficientFundsForRent".into()));
        }
    }
    let mut w = world.clone();
    for s in ctx.slots {
        if s.cur != s.pre {
            let a = if s.cur.lamports == 0 { Acc::system(0) } else { s.cur };
            w.put(s.key, a);
        }
    }
    if ixs.len() > 1 {
        snaps.push((w.clone(), ctx.events.len()));
    }
    Ok(TxOut { world: w, events: ctx.events, snaps })
}
