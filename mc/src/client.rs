//! The Rust client beside the program: what it builds is executed, what the program writes is decoded by it, and
//! what it quotes is compared with what is paid.
use crate::engine::*;
use crate::host::{Key, Meta};
use crate::model::*;
use crate::svm::*;
use crate::world::*;
use num_traits::FromPrimitive;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::collections::HashMap;
use xorca::XorcaStakingProgramError as Meaning;

fn pk(k: &Key) -> Pubkey {
    Pubkey::new_from_array(*k)
}

// ---- recording what the client's CPI helpers would invoke -----------------------------------------------------

type Invoked = (Instruction, Vec<(Pubkey, bool, bool)>, Vec<Vec<Vec<u8>>>);
thread_local! {
    static INVOKED: RefCell<Vec<Invoked>> = const { RefCell::new(vec![]) };
    static CLAIM: RefCell<HashMap<(Key, u8), (Key, u8)>> = RefCell::new(HashMap::new());
    static POOL: RefCell<Option<(Key, u8, Key, u8)>> = const { RefCell::new(None) };
}
#[no_mangle]
fn xmc_cpi_hook(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    INVOKED.with(|v| {
        v.borrow_mut().push((
            ix.clone(),
            infos.iter().map(|i| (*i.key, i.is_signer, i.is_writable)).collect(),
            seeds.iter().map(|s| s.iter().map(|x| x.to_vec()).collect()).collect(),
        ))
    });
    Ok(())
}
fn invoked(f: impl FnOnce() -> ProgramResult) -> Result<Invoked, String> {
    INVOKED.with(|v| v.borrow_mut().clear());
    f().map_err(|e| format!("the CPI helper failed: {e:?}"))?;
    INVOKED.with(|v| {
        let mut v = v.borrow_mut();
        if v.len() != 1 {
            return Err(format!("the CPI helper invoked {} instructions", v.len()));
        }
        Ok(v.pop().unwrap())
    })
}

// ---- addresses, as the client derives them --------------------------------------------------------------------

/// (state, its bump, vault, its bump)
pub fn pool_addresses() -> (Key, u8, Key, u8) {
    POOL.with(|p| {
        *p.borrow_mut().get_or_insert_with(|| {
            let c = cast();
            let (s, sb) = xorca::find_state_address().unwrap();
            let (v, vb) = xorca::find_orca_vault_address(&s, &pk(&c.token), &pk(&c.orca_mint)).unwrap();
            (s.to_bytes(), sb, v.to_bytes(), vb)
        })
    })
}
pub fn claim_address(owner: &Key, i: u8) -> (Key, u8) {
    CLAIM.with(|m| {
        *m.borrow_mut().entry((*owner, i)).or_insert_with(|| {
            let (k, b) = xorca::find_pending_withdraw_pda(&pk(owner), &i).unwrap();
            (k.to_bytes(), b)
        })
    })
}

// ---- building -------------------------------------------------------------------------------------------------

struct Holder {
    key: Pubkey,
    owner: Pubkey,
    lamports: u64,
    data: Vec<u8>,
}
impl Holder {
    fn new(key: Pubkey) -> Holder {
        Holder { key, owner: Pubkey::default(), lamports: 1, data: vec![] }
    }
    fn info(&mut self) -> AccountInfo<'_> {
        AccountInfo::new(&self.key, false, true, &mut self.lamports, &mut self.data, &self.owner, false, 0)
    }
}

/// The same instruction from each of the client's ways of making it (`Ok`), or only from the two plain ones (`Err`).
macro_rules! ways {
    ($full:expr, $S:ident, $B:ident, $C:ident, $CA:ident, $CB:ident, $Args:ident, { $($f:ident: $k:expr),* $(,)? }, { $($a:ident: $v:expr),* $(,)? }) => {{
        let st = || xorca::$S { $($f: pk(&$k)),* };
        let args = || xorca::$Args { $($a: $v),* };
        let more = AccountMeta { pubkey: pk(&named("more")), is_signer: false, is_writable: true };
        let plain = st().instruction(args());
        let builder = {
            let mut b = xorca::$B::new();
            $(b.$f(pk(&$k));)*
            $(b.$a($v);)*
            b.instruction()
        };
        if !$full {
            Err((plain, builder))
        } else {
        let plain_more = st().instruction_with_remaining_accounts(args(), &[more.clone()]);
        let builder_more = {
            let mut b = xorca::$B::new();
            $(b.$f(pk(&$k));)*
            $(b.$a($v);)*
            b.add_remaining_account(more.clone());
            b.instruction()
        };
        let mut prog = Holder::new(pk(&cast().xorca));
        let prog = prog.info();
        let mut extra = Holder::new(pk(&named("more")));
        let extra = extra.info();
        $(let mut $f = Holder::new(pk(&$k)); let $f = $f.info();)*
        let seeds: &[&[&[u8]]] = &[&[b"some", b"seed"], &[b"other"]];
        let make = || xorca::$C::new(&prog, xorca::$CA { $($f: &$f),* }, args());
        let make_b = || {
            let mut b = xorca::$CB::new(&prog);
            $(b.$f(&$f);)*
            $(b.$a($v);)*
            b
        };
        let cpi = invoked(|| make().invoke());
        let cpi_builder = invoked(|| make_b().invoke());
        let cpi_signed = invoked(|| make_b().invoke_signed(seeds));
        let mut cpi_more = vec![];
        for (w, s) in [(false, false), (true, false), (false, true), (true, true)] {
            cpi_more.push((w, s, invoked(|| { let mut b = make_b(); b.add_remaining_account(&extra, w, s); b.invoke() })));
            cpi_more.push((w, s, invoked(|| make().invoke_with_remaining_accounts(&[(&extra, w, s)]))));
        }
        Ok((plain, builder, plain_more, builder_more, cpi, cpi_builder, cpi_signed, cpi_more))
        }
    }};
}

type Full = (
    Instruction,
    Instruction,
    Instruction,
    Instruction,
    Result<Invoked, String>,
    Result<Invoked, String>,
    Result<Invoked, String>,
    Vec<(bool, bool, Result<Invoked, String>)>,
);
type Ways = Result<Full, (Instruction, Instruction)>;

/// The client's rendering of an operation; `x` is the resolved amount.
fn ways(op: &Op, x: u64, full: bool) -> Option<Ways> {
    let c = cast();
    let (state, _, vault, _) = pool_addresses();
    Some(match op {
        Op::Stake(u, _) => ways!(full, Stake, StakeBuilder, StakeCpi, StakeCpiAccounts, StakeCpiBuilder, StakeInstructionArgs, {
            staker_account: who(*u),
            vault_account: vault,
            staker_orca_ata: c.orca_ata[*u as usize],
            staker_xorca_ata: c.xorca_ata[*u as usize],
            xorca_mint_account: c.xorca_mint,
            state_account: state,
            orca_mint_account: c.orca_mint,
            token_program_account: c.token,
        }, { orca_stake_amount: x }),
        Op::Unstake(u, _, i) => ways!(full, Unstake, UnstakeBuilder, UnstakeCpi, UnstakeCpiAccounts, UnstakeCpiBuilder, UnstakeInstructionArgs, {
            unstaker_account: who(*u),
            state_account: state,
            pending_withdraw_account: claim_address(&who(*u), *i).0,
            unstaker_xorca_ata: c.xorca_ata[*u as usize],
            xorca_mint_account: c.xorca_mint,
            orca_mint_account: c.orca_mint,
            vault_account: vault,
            system_program_account: SYSTEM,
            token_program_account: c.token,
        }, { xorca_unstake_amount: x, withdraw_index: *i }),
        Op::Withdraw(u, i) => ways!(full, Withdraw, WithdrawBuilder, WithdrawCpi, WithdrawCpiAccounts, WithdrawCpiBuilder, WithdrawInstructionArgs, {
            unstaker_account: who(*u),
            state_account: state,
            pending_withdraw_account: claim_address(&who(*u), *i).0,
            unstaker_orca_ata: c.orca_ata[*u as usize],
            vault_account: vault,
            orca_mint_account: c.orca_mint,
            system_program_account: SYSTEM,
            token_program_account: c.token,
        }, { withdraw_index: *i }),
        Op::SetCd(u, cd) => ways!(full, Set, SetBuilder, SetCpi, SetCpiAccounts, SetCpiBuilder, SetInstructionArgs, {
            update_authority_account: who(*u),
            state_account: state,
        }, { instruction_data: xorca::StateUpdateInstruction::UpdateCoolDownPeriod { new_cool_down_period_s: *cd } }),
        Op::SetAuth(u, t) => ways!(full, Set, SetBuilder, SetCpi, SetCpiAccounts, SetCpiBuilder, SetInstructionArgs, {
            update_authority_account: who(*u),
            state_account: state,
        }, { instruction_data: xorca::StateUpdateInstruction::UpdateUpdateAuthority { new_authority: pk(&who(*t)) } }),
        Op::Init(p, a, cd) => ways!(full, Initialize, InitializeBuilder, InitializeCpi, InitializeCpiAccounts, InitializeCpiBuilder, InitializeInstructionArgs, {
            payer_account: who(*p),
            update_authority_account: who(*a),
            state_account: state,
            vault_account: vault,
            xorca_mint_account: c.xorca_mint,
            orca_mint_account: c.orca_mint,
            system_program_account: SYSTEM,
            token_program_account: c.token,
            associated_token_program_account: c.ata,
        }, { cool_down_period_s: *cd }),
        _ => return None,
    })
}

fn lower(i: &Instruction) -> Ix {
    Ix {
        program: i.program_id.to_bytes(),
        metas: i.accounts.iter().map(|a| Meta { key: a.pubkey.to_bytes(), signer: a.is_signer, writable: a.is_writable }).collect(),
        data: i.data.clone(),
    }
}
pub fn same(a: &Ix, b: &Ix) -> bool {
    a.program == b.program
        && a.data == b.data
        && a.metas.len() == b.metas.len()
        && a.metas.iter().zip(&b.metas).all(|(x, y)| x.key == y.key && x.signer == y.signer && x.writable == y.writable)
}

// ---- C12: the monitor -----------------------------------------------------------------------------------------

/// The client's name for a reason to refuse.
pub fn meanings(op: &Op, r: &No) -> Option<Vec<Meaning>> {
    Some(match r {
        No::Insufficient => vec![Meaning::InsufficientFunds],
        No::ZeroOut if matches!(op, Op::Stake(..)) => vec![Meaning::InsufficientStakeAmount],
        No::ZeroOut => vec![Meaning::InsufficientUnstakeAmount],
        No::NoRate | No::Overflow => vec![Meaning::ArithmeticError],
        No::Backing => vec![Meaning::InsufficientVaultBacking],
        No::TooEarly => vec![Meaning::CoolDownPeriodStillActive],
        No::CoolOverflow => vec![Meaning::CoolDownOverflow],
        No::Negative => vec![Meaning::InvalidCoolDownPeriod],
        No::NotDeployer => vec![Meaning::UnauthorizedDeployerAccess],
        No::Initialized => vec![Meaning::StateAccountAlreadyInitialized],
        No::NotAuthority => vec![Meaning::IncorrectAccountAddress],
        No::ClaimExists | No::NoClaim | No::Uninitialized => vec![Meaning::IncorrectOwner],
        // Nothing in particular is promised.
        No::NotOwner | No::Lamports => return None,
    })
}

pub struct Wire;
impl Monitor for Wire {
    fn step(&self, s: &Step) -> Verdict {
        if s.in_tx {
            return Ok(());
        }
        if matches!(s.op, Op::Steal(..)) {
            return Ok(());
        }
        let Some(w) = ways(s.op, s.x, false) else { return Ok(()) };
        let (plain, builder) = match w {
            Err(x) => x,
            Ok(_) => unreachable!(),
        };
        if plain != builder {
            return Err(format!("the client's two ways of building '{}' differ: {plain:?} and {builder:?}", s.op));
        }
        let ix = lower(&plain);
        let (hand, _) = build(s.op, s.pre).unwrap();
        // The same bytes have the same effect; only something else needs executing.
        let (res, post, events): (Result<(), TxErr>, World, Vec<Vec<u8>>) = if same(&ix, &hand) {
            (s.res.clone(), s.post.clone(), s.events.to_vec())
        } else {
            let (res, post, events) = match run_tx(s.pre, &[ix.clone()]) {
                Ok(o) => (Ok(()), o.world, o.events),
                Err(e) => (Err(e), s.pre.clone(), vec![]),
            };
            if res.is_ok() != s.res.is_ok() || post != *s.post {
                return Err(format!("'{}' (amount {}) as built by the client has another effect than it should: {res:?} instead of {:?}; built: {ix:?}", s.op, s.x, s.res));
            }
            (res, post, events)
        };
        let why = refusals(s.pre, s.ghost, s.op, s.x);
        match &res {
            Ok(()) => understood(s, &post, &events),
            Err(TxErr::Program(code)) => {
                let m = Meaning::from_u64(*code);
                if why.is_empty() {
                    // A refusal for no reason is another property's business, unless the program did not understand.
                    return match m {
                        None | Some(Meaning::UnknownInstructionDiscriminator | Meaning::IncorrectProgramId | Meaning::InvalidAccountRole | Meaning::NotEnoughAccountKeys) => {
                            Err(format!("the program does not understand '{}' as built by the client: {m:?} ({code})", s.op))
                        }
                        _ => Ok(()),
                    };
                }
                let mut ok = vec![];
                for r in &why {
                    match meanings(s.op, r) {
                        None => return Ok(()),
                        Some(v) => ok.extend(v),
                    }
                }
                match m {
                    Some(m) if ok.contains(&m) => Ok(()),
                    m => Err(format!("'{}' (amount {}) was refused because {why:?}, which the client reports as {m:?} ({code})", s.op, s.x)),
                }
            }
            Err(_) => Ok(()),
        }
    }
    fn state(&self, w: &World, g: &Ghost, _: &mut Counts) -> Verdict {
        let c = cast();
        let (state, sb, vault, vb) = pool_addresses();
        if state != c.state || vault != c.vault {
            return Err("the client derives other pool addresses than the program's".into());
        }
        if let Some(a) = w.get(&c.state).filter(|a| a.owner == c.xorca) {
            let bytes = a.full();
            let d = xorca::State::from_bytes(&bytes).map_err(|e| format!("the client cannot decode the pool: {e}"))?;
            if bytes.len() != xorca::State::LEN {
                return Err(format!("the pool account has {} bytes, the client expects {}", bytes.len(), xorca::State::LEN));
            }
            let got = (d.discriminator, d.bump, d.vault_bump, d.escrowed_orca_amount, d.cool_down_period_s, d.update_authority.to_bytes());
            // What was last set, not where it is stored; the escrow is compared with the stored claims below.
            let want = (xorca::STATE_DISCRIMINATOR, sb, vb, w.claims().iter().fold(0u64, |s, c| s.wrapping_add(c.3)), g.cooldown, g.authority);
            if got.0 != want.0 || (got.1, got.2) != (want.1, want.2) {
                return Err(format!("the client decodes the pool as {got:?} instead of {want:?}"));
            }
            if got.3 != w.escrow() || got.4 != w.cooldown() || got.5 != w.authority() {
                return Err(format!("the client decodes the pool as {got:?} where the program stored {:?}", (w.escrow(), w.cooldown(), w.authority())));
            }
            let mut k = named("any");
            let mut lam = 1;
            let mut data = bytes.clone();
            let (key, own) = (pk(&k), pk(&c.xorca));
            k[0] ^= 1;
            let info = AccountInfo::new(&key, false, false, &mut lam, &mut data, &own, false, 0);
            if xorca::State::try_from(&info).ok() != Some(d) {
                return Err("the client decodes the pool differently from an account".into());
            }
        }
        for ((u, i), (amount, release, _)) in &g.claims {
            let (key, bump) = claim_address(&who(*u), *i);
            let a = w.acc(&key);
            if a.owner != c.xorca {
                // Whether the claim is there at all is another property's business.
                if w.is_claim(&pending(&who(*u), *i)) {
                    return Err(format!("the client derives another address for {u}'s claim #{i} than the program's"));
                }
                continue;
            }
            let bytes = a.full();
            let d = xorca::PendingWithdraw::from_bytes(&bytes).map_err(|e| format!("the client cannot decode a claim: {e}"))?;
            if bytes.len() != xorca::PendingWithdraw::LEN {
                return Err(format!("a claim account has {} bytes, the client expects {}", bytes.len(), xorca::PendingWithdraw::LEN));
            }
            let stored = (bytes[6], bytes[7], a.key(8), a.u64(40), a.u64(48) as i64);
            let got = (d.bump, d.withdraw_index, d.unstaker.to_bytes(), d.withdrawable_orca_amount, d.withdrawable_timestamp);
            if d.discriminator != xorca::PENDING_WITHDRAW_DISCRIMINATOR || got != stored || (got.0, got.1, got.2) != (bump, *i, who(*u)) {
                return Err(format!("the client decodes claim #{i} as {got:?} (release {release}, amount {amount}) where the program stored {stored:?}"));
            }
        }
        for (key, a) in w.accts.iter().filter(|(_, a)| a.owner == c.token) {
            let bytes = a.full();
            if bytes.len() == 165 {
                let d = <xorca::TokenAccount as borsh::BorshDeserialize>::deserialize(&mut &bytes[..]).map_err(|e| format!("the client cannot decode a token account: {e}"))?;
                if (d.mint.to_bytes(), d.owner.to_bytes(), d.amount, d.state) != (a.key(0), a.key(32), a.u64(64), xorca::TokenAccountState::Initialized) {
                    return Err(format!("the client decodes token account {} wrongly: {d:?}", pk(key)));
                }
            } else {
                let d = <xorca::TokenMint as borsh::BorshDeserialize>::deserialize(&mut &bytes[..]).map_err(|e| format!("the client cannot decode a mint: {e}"))?;
                if (d.mint_authority_flag, d.mint_authority.to_bytes(), d.supply, d.decimals, d.is_initialized, d.freeze_authority_flag)
                    != (a.u64(0) as u32, a.key(4), a.u64(36), 6, true, 0)
                {
                    return Err(format!("the client decodes mint {} wrongly: {d:?}", pk(key)));
                }
            }
        }
        Ok(())
    }
}

/// An accepted operation did what its arguments say, and the client reads its event as it happened.
fn understood(s: &Step, post: &World, events: &[Vec<u8>]) -> Verdict {
    let bad = |what: &str| Err(format!("the program took '{}' (amount {}) as built by the client to mean something else: {what}", s.op, s.x));
    let pre = s.pre;
    match s.op {
        Op::Stake(u, _) => {
            if pre.orca(*u).checked_sub(post.orca(*u)) != Some(s.x) {
                return bad("another amount was staked");
            }
        }
        Op::Unstake(u, _, i) => {
            if pre.xo(*u).checked_sub(post.xo(*u)) != Some(s.x) {
                return bad("another amount was unstaked");
            }
            if !post.is_claim(&claim_address(&who(*u), *i).0) {
                return bad("no claim under that index");
            }
        }
        Op::Withdraw(u, i) => {
            let k = claim_address(&who(*u), *i).0;
            if post.is_claim(&k) {
                return bad("the claim is still there");
            }
            let Ok(d) = xorca::PendingWithdraw::from_bytes(&pre.acc(&k).full()) else { return bad("the claim cannot be decoded") };
            if post.orca(*u).wrapping_sub(pre.orca(*u)) != d.withdrawable_orca_amount {
                return bad("the claim decoded by the client was for another amount");
            }
            if d.withdrawable_timestamp > pre.now && s.ghost.claims.get(&(*u, *i)).is_some_and(|c| c.1 <= pre.now) {
                return bad("the claim decoded by the client was not ripe");
            }
        }
        Op::SetCd(_, cd) | Op::Init(_, _, cd) => {
            let Ok(d) = xorca::State::from_bytes(&post.acc(&cast().state).full()) else { return bad("the pool cannot be decoded") };
            if d.cool_down_period_s != *cd {
                return bad("another cooldown was set");
            }
            if let Op::Init(_, a, _) = s.op {
                if d.update_authority.to_bytes() != who(*a) {
                    return bad("another authority was set");
                }
            }
        }
        Op::SetAuth(_, t) => {
            let Ok(d) = xorca::State::from_bytes(&post.acc(&cast().state).full()) else { return bad("the pool cannot be decoded") };
            if d.update_authority.to_bytes() != who(*t) {
                return bad("another authority was set");
            }
        }
        _ => {}
    }
    for e in events {
        let mut rest = &e[..];
        let d = match <xorca::Event as borsh::BorshDeserialize>::deserialize(&mut rest) {
            Ok(d) => d,
            Err(x) => return Err(format!("the client cannot decode the event of '{}': {x}", s.op)),
        };
        if !rest.is_empty() {
            return Err(format!("the client leaves {} bytes of the event of '{}' undecoded", rest.len(), s.op));
        }
        let u = |x: u64| x as i128;
        // (value the client reads, value that is true), field by field.
        let f: Vec<(i128, i128)> = match (&d, s.op) {
            (xorca::Event::Stake { orca_stake_amount, vault_orca_amount, vault_escrowed_orca_amount, xorca_mint_supply, xorca_to_mint }, Op::Stake(..)) => vec![
                (u(*orca_stake_amount), u(s.x)),
                (u(*vault_orca_amount), u(post.vault())),
                (u(*vault_escrowed_orca_amount), u(post.escrow())),
                (u(*xorca_mint_supply), u(post.supply())),
                (u(*xorca_to_mint), u(post.supply()) - u(pre.supply())),
            ],
            (
                xorca::Event::Unstake {
                    xorca_unstake_amount,
                    vault_orca_amount,
                    vault_escrowed_orca_amount,
                    xorca_mint_supply,
                    withdrawable_orca_amount,
                    cool_down_period_s,
                    withdraw_index,
                },
                Op::Unstake(_, _, i),
            ) => vec![
                (u(*xorca_unstake_amount), u(s.x)),
                (u(*vault_orca_amount), u(post.vault())),
                (u(*vault_escrowed_orca_amount), u(post.escrow())),
                (u(*xorca_mint_supply), u(post.supply())),
                (u(*withdrawable_orca_amount), u(post.escrow()) - u(pre.escrow())),
                (*cool_down_period_s as i128, post.cooldown() as i128),
                (*withdraw_index as i128, *i as i128),
            ],
            (xorca::Event::Withdraw { vault_escrowed_orca_amount, withdrawable_orca_amount, cool_down_period_s, withdraw_index }, Op::Withdraw(_, i)) => vec![
                (u(*vault_escrowed_orca_amount), u(post.escrow())),
                (u(*withdrawable_orca_amount), u(pre.vault()) - u(post.vault())),
                (*cool_down_period_s as i128, post.cooldown() as i128),
                (*withdraw_index as i128, *i as i128),
            ],
            (xorca::Event::UpdateAuthoritySet { new_authority, set_by }, Op::SetAuth(b, t)) => {
                if (new_authority.to_bytes(), set_by.to_bytes()) == (who(*b), who(*t)) && who(*b) != who(*t) {
                    return Err(format!("the client reads the event of '{}' the wrong way round", s.op));
                }
                vec![]
            }
            _ => return Err(format!("the client reads the event of '{}' as {d:?}", s.op)),
        };
        // A wrong value in the event is the program's fault; right values in wrong places are a disagreement.
        let (mut a, mut b): (Vec<i128>, Vec<i128>) = f.iter().copied().unzip();
        if a != b {
            a.sort();
            b.sort();
            if a == b {
                return Err(format!("the client reads the values of the event of '{}' in the wrong places: {d:?}", s.op));
            }
        }
    }
    Ok(())
}

// ---- C12: every way of building, and the permissions asked for --------------------------------------------------

/// A disagreement, with a key by which it can be listed as known.
pub struct Found {
    pub key: String,
    pub what: String,
}

/// (instructions compared, disagreements)
pub fn builders() -> (u64, Vec<Found>) {
    let nums = crate::suites::boundary(u64::MAX, 3);
    let mut ops: Vec<(Op, u64)> = vec![];
    for x in nums.iter().copied().chain([u64::MAX]) {
        ops.push((Op::Stake(0, Amt::Fix(x)), x));
        ops.push((Op::Unstake(1, Amt::Fix(x), (x % 256) as u8), x));
        for cd in [x as i64, (x as i64).wrapping_neg()] {
            ops.push((Op::SetCd(ADMIN, cd), 0));
            ops.push((Op::Init(255, ADMIN, cd), 0));
        }
    }
    for i in 0..=255u8 {
        ops.push((Op::Unstake(0, Amt::Fix(7), i), 7));
        ops.push((Op::Withdraw(0, i), 0));
        ops.push((Op::Withdraw(2, i), 0));
    }
    for t in [0u8, 1, 2, ADMIN, 255] {
        ops.push((Op::SetAuth(ADMIN, t), 0));
    }
    let mut n = 0;
    let mut out: Vec<Found> = vec![];
    let mut say = |key: String, what: String| {
        if !out.iter().any(|f| f.key == key) {
            out.push(Found { key, what });
        }
    };
    for (op, x) in &ops {
        let kind = op.kind();
        let (plain, builder, plain_more, builder_more, cpi, cpi_builder, cpi_signed, cpi_more) = match ways(op, *x, true) {
            Some(Ok(f)) => f,
            _ => unreachable!(),
        };
        n += 12;
        if plain != builder {
            say(format!("builder:{kind}"), format!("the builder makes another instruction for '{op}': {builder:?} instead of {plain:?}"));
        }
        let mut want = plain.clone();
        want.accounts.push(AccountMeta { pubkey: pk(&named("more")), is_signer: false, is_writable: true });
        for (k, m) in [("remaining", &plain_more), ("builder-remaining", &builder_more)] {
            if *m != want {
                say(format!("{k}:{kind}"), format!("a remaining account is passed on wrongly for '{op}': {m:?}"));
            }
        }
        let keys = |i: &Instruction| {
            let mut v = vec![pk(&cast().xorca)];
            v.extend(i.accounts.iter().map(|a| a.pubkey));
            v.sort();
            v.dedup();
            v
        };
        for (k, r, seeds) in [("cpi", &cpi, 0), ("cpi-builder", &cpi_builder, 0), ("cpi-signed", &cpi_signed, 2)] {
            match r {
                Err(e) => say(format!("{k}:{kind}"), e.clone()),
                Ok((i, infos, s)) => {
                    let mut have: Vec<Pubkey> = infos.iter().map(|x| x.0).collect();
                    have.sort();
                    have.dedup();
                    if *i != plain {
                        say(format!("{k}:{kind}"), format!("the {k} way makes another instruction for '{op}': {i:?} instead of {plain:?}"));
                    } else if have != keys(i) {
                        say(format!("{k}-accounts:{kind}"), format!("the {k} way hands over other accounts than the instruction of '{op}' names"));
                    }
                    let given: Vec<Vec<Vec<u8>>> = if seeds == 0 { vec![] } else { vec![vec![b"some".to_vec(), b"seed".to_vec()], vec![b"other".to_vec()]] };
                    if *s != given {
                        say(format!("{k}-seeds:{kind}"), format!("the {k} way passes other signer seeds on for '{op}'"));
                    }
                }
            }
        }
        for (w, s, r) in &cpi_more {
            match r {
                Err(e) => say(format!("cpi-remaining:{kind}"), e.clone()),
                Ok((i, infos, _)) => {
                    let mut want = plain.clone();
                    want.accounts.push(AccountMeta { pubkey: pk(&named("more")), is_signer: *s, is_writable: *w });
                    if *i != want {
                        let mut swapped = want.clone();
                        let l = swapped.accounts.last_mut().unwrap();
                        (l.is_signer, l.is_writable) = (*w, *s);
                        let key = if *i == swapped { "cpi-remaining-flags-swapped" } else { "cpi-remaining" };
                        say(format!("{key}:{kind}"), format!("a remaining account given to the CPI helper of '{kind}' as (writable {w}, signer {s}) becomes {:?}", i.accounts.last()));
                    }
                    if !infos.iter().any(|a| a.0 == pk(&named("more"))) {
                        say(format!("cpi-remaining-account:{kind}"), format!("the CPI helper of '{kind}' does not hand over a remaining account"));
                    }
                }
            }
        }
    }
    // Permissions: every one asked for is needed.
    for (op, prefix) in [
        (Op::Stake(0, Amt::Fix(100)), vec![]),
        (Op::Unstake(0, Amt::Fix(50), 3), vec![Op::Stake(0, Amt::Fix(100))]),
        (Op::Withdraw(0, 3), vec![Op::Stake(0, Amt::Fix(100)), Op::Unstake(0, Amt::Fix(50), 3), Op::Warp(100)]),
        (Op::SetCd(ADMIN, 5), vec![]),
        (Op::SetAuth(ADMIN, 0), vec![]),
        (Op::Init(255, ADMIN, 5), vec![]),
    ] {
        let kind = op.kind();
        let mut w = if matches!(op, Op::Init(..)) { genesis([1000; USERS], 7) } else { pool([1000; USERS], 100, 7) };
        for p in &prefix {
            if let Op::Warp(d) = p {
                w.now += d;
            } else {
                let (ix, _) = build(p, &w).unwrap();
                match run_tx(&w, &[ix]) {
                    Ok(o) => w = o.world,
                    // Other properties judge that.
                    Err(_) => break,
                }
            }
        }
        let x = build(&op, &w).unwrap().1;
        let plain = match ways(&op, x, false) {
            Some(Err((p, _))) => lower(&p),
            _ => unreachable!(),
        };
        n += 1;
        let hand = build(&op, &w).unwrap().0;
        match (run_tx(&w, &[plain.clone()]), run_tx(&w, &[hand])) {
            (Err(e), Ok(_)) => say(format!("refused:{kind}"), format!("'{op}' as built by the client is refused: {e:?}")),
            (Err(_), Err(_)) => {}
            (Ok(_), _) => {
                for (j, m) in plain.metas.iter().enumerate() {
                    for f in 0..2 {
                        let mut v = plain.clone();
                        let (have, name) = if f == 0 { (m.signer, "signature") } else { (m.writable, "write permission") };
                        if !have {
                            continue;
                        }
                        if f == 0 {
                            v.metas[j].signer = false;
                        } else {
                            v.metas[j].writable = false;
                        }
                        n += 1;
                        if run_tx(&w, &[v]).is_ok() {
                            say(format!("excess:{kind}:{j}:{f}"), format!("the client asks for a {name} for account {j} of '{op}' which the program does not need"));
                        }
                    }
                }
            }
        }
    }
    (n, out)
}

// ---- C11: quotes ----------------------------------------------------------------------------------------------

/// (stake?, amount, free ORCA, supply, what the program paid; None = refused for want of a positive result, escrow)
pub type Quote = (bool, u64, u64, u64, Option<u64>, u64);

#[derive(Default)]
pub struct Quotes {
    pub seen: Vec<std::sync::Mutex<std::collections::HashSet<Quote>>>,
}
impl Quotes {
    pub fn new() -> Quotes {
        Quotes { seen: (0..64).map(|_| Default::default()).collect() }
    }
}
impl Monitor for Quotes {
    fn step(&self, s: &Step) -> Verdict {
        let Some(free) = s.pre.vault().checked_sub(s.pre.escrow()) else { return Ok(()) };
        let supply = s.pre.supply();
        let (stake, paid) = match s.op {
            Op::Stake(u, _) => (true, s.post.xo(*u).wrapping_sub(s.pre.xo(*u))),
            Op::Unstake(u, _, i) => (false, s.post.acc(&pending(&who(*u), *i)).u64(40)),
            _ => return Ok(()),
        };
        let paid = match &s.res {
            Ok(()) => Some(paid),
            Err(_) => {
                let r = refusals(s.pre, s.ghost, s.op, s.x);
                if r.is_empty() || !r.iter().all(|r| matches!(r, No::ZeroOut | No::NoRate | No::Overflow)) {
                    return Ok(());
                }
                None
            }
        };
        let q = if stake { xorca::convert_orca_to_xorca(s.x, free, supply) } else { xorca::convert_xorca_to_orca(s.x, free, supply) };
        match (paid, q) {
            (Some(p), Ok(q)) if p == q => {}
            // The supply, the vault or the escrow overflowing is not a matter of the rate.
            (None, Ok(q)) if Some(q) != (if stake { mint_out(s.x, free, supply) } else { redeem_out(s.x, free, supply) }) => {
                return Err(format!("'{}' (amount {}) with {free} free ORCA and {supply} xORCA: the client quotes {q}, the program refuses", s.op, s.x))
            }
            (None, Err(_)) | (None, Ok(0)) => {}
            (None, Ok(q)) if stake && (supply.checked_add(q).is_none() || s.pre.vault().checked_add(s.x).is_none()) => return Ok(()),
            (None, Ok(q)) if !stake && s.pre.escrow().checked_add(q).is_none() => return Ok(()),
            (p, q) => return Err(format!("'{}' (amount {}) with {free} free ORCA and {supply} xORCA: the client quotes {q:?}, the program gives {p:?}", s.op, s.x)),
        }
        // Escrow only matters where the sum can overflow.
        let t = (stake, s.x, free, supply, paid, if paid.is_none() && !stake { s.pre.escrow() } else { 0 });
        let h = (s.x ^ free.rotate_left(17) ^ supply.rotate_left(31)).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 58;
        self.seen[h as usize].lock().unwrap().insert(t);
        Ok(())
    }
}

impl Quotes {
    /// All quotes seen, as the records js/quotes.mjs reads.
    pub fn dump(&self, path: &std::path::Path) -> std::io::Result<u64> {
        use std::io::Write;
        let mut f = std::io::BufWriter::new(std::fs::File::create(path)?);
        let mut n = 0;
        for m in &self.seen {
            for (stake, x, free, supply, paid, escrow) in m.lock().unwrap().iter() {
                f.write_all(&[*stake as u8 | (paid.is_some() as u8) << 1])?;
                for v in [*x, *free, *supply, paid.unwrap_or(0), *escrow] {
                    f.write_all(&v.to_le_bytes())?;
                }
                n += 1;
            }
        }
        f.flush()?;
        Ok(n)
    }
}
