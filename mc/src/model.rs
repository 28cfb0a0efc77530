//! The reference model: what each operation must do, and when it must be refused. Written from the program's
//! documentation, sharing no code with it.
use crate::engine::*;
use crate::host::Key;
use crate::svm::*;
use crate::world::*;

/// a * (b + 100) as (carry, low 128 bits).
fn prod(a: u64, b: u64) -> (u8, u128) {
    let (lo, c) = (a as u128 * b as u128).overflowing_add(a as u128 * 100);
    (c as u8, lo)
}
/// Is `out` = floor(x * (num + 100) / (den + 100))?
pub fn is_floor(x: u64, num: u64, den: u64, out: u64) -> bool {
    let p = prod(x, num);
    let lo = prod(out, den);
    let (l, c) = lo.1.overflowing_add(den as u128 + 100);
    let hi = (lo.0 + c as u8, l);
    lo <= p && p < hi
}
/// floor(x * (num + 100) / (den + 100)), or None when it does not fit 64 bits. Found by bisection on `is_floor`'s
/// order, not by division.
pub fn quote(x: u64, num: u64, den: u64) -> Option<u64> {
    let p = prod(x, num);
    if let (0, v) = p {
        // The usual case; checked against the definition below.
        let q = v / (den as u128 + 100);
        let q = u64::try_from(q).ok()?;
        debug_assert!(is_floor(x, num, den, q));
        return Some(q);
    }
    let (mut lo, mut hi) = (0u64, u64::MAX);
    while lo < hi {
        let mid = lo + (hi - lo) / 2 + 1;
        if prod(mid, den) <= p {
            lo = mid
        } else {
            hi = mid - 1
        }
    }
    is_floor(x, num, den, lo).then_some(lo)
}
pub fn mint_out(x: u64, n: u64, s: u64) -> Option<u64> {
    if s == 0 || n == 0 {
        Some(x)
    } else {
        quote(x, s, n)
    }
}
pub fn redeem_out(x: u64, n: u64, s: u64) -> Option<u64> {
    if s == 0 || n == 0 {
        None
    } else {
        quote(x, n, s)
    }
}

/// Why an operation must be refused. Each reason is judged by the property it belongs to.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum No {
    Uninitialized,
    Initialized,
    NotDeployer,
    Insufficient,
    ZeroOut,
    NoRate,
    Overflow,
    Backing,
    ClaimExists,
    NoClaim,
    NotOwner,
    TooEarly,
    CoolOverflow,
    NotAuthority,
    Negative,
    Lamports,
}

pub fn refusals(w: &World, g: &Ghost, op: &Op, x: u64) -> Vec<No> {
    let c = cast();
    let mut r = vec![];
    let init = w.get(&c.state).map(|a| a.owner == c.xorca).unwrap_or(false);
    let ours = matches!(op, Op::Stake(..) | Op::Unstake(..) | Op::Withdraw(..) | Op::Steal(..) | Op::SetCd(..) | Op::SetAuth(..));
    if ours && !init {
        return vec![No::Uninitialized];
    }
    let n = w.vault().checked_sub(w.escrow());
    match op {
        Op::Stake(u, _) => {
            if x > w.orca(*u) {
                r.push(No::Insufficient);
            }
            if w.vault().checked_add(x).is_none() {
                r.push(No::Overflow);
            }
            match n {
                None => r.push(No::Backing),
                Some(n) => match mint_out(x, n, w.supply()) {
                    None => r.push(No::Overflow),
                    Some(0) => r.push(No::ZeroOut),
                    Some(m) => {
                        if w.supply().checked_add(m).is_none() {
                            r.push(No::Overflow)
                        }
                    }
                },
            }
        }
        Op::Unstake(u, _, i) => {
            if x > w.xo(*u) {
                r.push(No::Insufficient);
            }
            if g.claims.contains_key(&(*u, *i)) {
                r.push(No::ClaimExists);
            }
            match n {
                None => r.push(No::Backing),
                Some(n) => {
                    if w.supply() == 0 || n == 0 {
                        r.push(No::NoRate)
                    } else {
                        match redeem_out(x, n, w.supply()) {
                            None => r.push(No::Overflow),
                            Some(0) => r.push(No::ZeroOut),
                            Some(a) => {
                                if w.escrow().checked_add(a).is_none() {
                                    r.push(No::Overflow)
                                }
                            }
                        }
                    }
                }
            }
            if w.now.checked_add(g.cooldown).is_none() {
                r.push(No::CoolOverflow);
            }
            let lack = rent_min(1024).saturating_sub(w.lamports(&pending(&who(*u), *i)));
            let have = w.lamports(&who(*u));
            if have < lack || (have - lack > 0 && have - lack < rent_min(0) && lack > 0) {
                r.push(No::Lamports);
            }
        }
        Op::Withdraw(u, i) => match g.claims.get(&(*u, *i)) {
            None => r.push(No::NoClaim),
            Some((_, t, _)) => {
                if w.now < *t {
                    r.push(No::TooEarly);
                }
            }
        },
        Op::Steal(t, u, i) => {
            if t == u {
                return refusals(w, g, &Op::Withdraw(*u, *i), x);
            }
            r.push(No::NotOwner);
        }
        Op::SetCd(b, cd) => {
            if who(*b) != g.authority {
                r.push(No::NotAuthority);
            }
            if *cd < 0 {
                r.push(No::Negative);
            }
        }
        Op::SetAuth(b, _) => {
            if who(*b) != g.authority {
                r.push(No::NotAuthority);
            }
        }
        Op::Init(p, _, cd) => {
            if init {
                r.push(No::Initialized);
            }
            if who(*p) != c.deployer {
                r.push(No::NotDeployer);
            }
            if *cd < 0 {
                r.push(No::Negative);
            }
        }
        _ => {}
    }
    r
}

fn ours(op: &Op) -> bool {
    matches!(
        op,
        Op::Stake(..) | Op::Unstake(..) | Op::Withdraw(..) | Op::Steal(..) | Op::SetCd(..) | Op::SetAuth(..) | Op::Init(..)
    )
}

fn must_refuse(s: &Step, mine: &[No]) -> Verdict {
    if s.res.is_ok() {
        for r in refusals(s.pre, s.ghost, s.op, s.x) {
            if mine.contains(&r) {
                return Err(format!("'{}' (amount {}) was accepted although it must be refused: {r:?}", s.op, s.x));
            }
        }
    }
    Ok(())
}
/// The operation breaks no rule at all, so it has to go through.
fn must_accept(s: &Step) -> Verdict {
    if let Err(e) = &s.res {
        if ours(s.op) && refusals(s.pre, s.ghost, s.op, s.x).is_empty() {
            return Err(format!("'{}' (amount {}) breaks no rule but was refused: {e:?}", s.op, s.x));
        }
    }
    Ok(())
}

fn diff(what: &str, want: impl std::fmt::Debug, got: impl std::fmt::Debug, s: &Step) -> String {
    format!("after '{}' (amount {}): {what} should be {want:?} but is {got:?}", s.op, s.x)
}

fn is_state(k: &Key) -> bool {
    *k == cast().state
}

// ---- C01 ----
pub struct Escrow;
impl Monitor for Escrow {
    fn step(&self, s: &Step) -> Verdict {
        escrow_ok(s.post)
    }
    fn state(&self, w: &World, _: &Ghost, _: &mut Counts) -> Verdict {
        escrow_ok(w)
    }
}
fn escrow_ok(w: &World) -> Verdict {
    let sum: u128 = w.claims().iter().map(|c| c.3 as u128).sum();
    if sum != w.escrow() as u128 {
        return Err(format!("recorded escrow {} but outstanding claims add up to {sum}", w.escrow()));
    }
    if (w.vault() as u128) < sum {
        return Err(format!("outstanding claims of {sum} exceed the vault's {}", w.vault()));
    }
    Ok(())
}

// ---- C02 ----
pub struct Tokens;
impl Monitor for Tokens {
    fn step(&self, s: &Step) -> Verdict {
        must_refuse(s, &[No::Insufficient])?;
        if s.res.is_err() || !ours(s.op) {
            return Ok(());
        }
        let c = cast();
        let mut want = s.pre.clone();
        let bump = |w: &mut World, key: &Key, d: i128| -> Verdict {
            let v = w.tokens(key) as i128 + d;
            let v = u64::try_from(v).map_err(|_| format!("'{}' moves {d} tokens out of range", s.op))?;
            w.set_tokens(key, v);
            Ok(())
        };
        let set_supply = |w: &mut World, v: u64| {
            let mut a = w.acc(&c.xorca_mint);
            a.set(36, &v.to_le_bytes());
            w.put(c.xorca_mint, a);
        };
        match s.op {
            Op::Stake(u, _) => {
                let minted = s.post.supply() as i128 - s.pre.supply() as i128;
                if minted < 0 {
                    return Err(diff("the xORCA minted", "non-negative", minted, s));
                }
                bump(&mut want, &c.orca_ata[*u as usize], -(s.x as i128))?;
                bump(&mut want, &c.vault, s.x as i128)?;
                bump(&mut want, &c.xorca_ata[*u as usize], minted)?;
                set_supply(&mut want, s.post.supply());
            }
            Op::Unstake(u, _, _) => {
                bump(&mut want, &c.xorca_ata[*u as usize], -(s.x as i128))?;
                let v = s.pre.supply().checked_sub(s.x).ok_or("burned more than the supply")?;
                set_supply(&mut want, v);
            }
            Op::Withdraw(u, i) => {
                let a = s.pre.acc(&pending(&who(*u), *i)).u64(40);
                bump(&mut want, &c.vault, -(a as i128))?;
                bump(&mut want, &c.orca_ata[*u as usize], a as i128)?;
            }
            Op::Init(..) => {
                want.put(c.vault, token_account(&c.orca_mint, &c.state, s.pre.vault()));
            }
            _ => {}
        }
        let tok = |w: &World| -> Vec<(Key, Vec<u8>)> {
            w.accts.iter().filter(|(_, a)| a.owner == c.token).map(|(k, a)| (*k, a.full())).collect()
        };
        let (a, b) = (tok(&want), tok(s.post));
        if a != b {
            for (k, d) in &a {
                if b.iter().find(|x| x.0 == *k).map(|x| &x.1) != Some(d) {
                    let g = Acc::with(0, c.token, d);
                    return Err(diff(
                        &format!("token account or mint {} (amount or supply)", label(k)),
                        (g.u64(64), g.u64(36)),
                        (s.post.acc(k).u64(64), s.post.acc(k).u64(36)),
                        s,
                    ));
                }
            }
            return Err(format!("'{}' created a token account", s.op));
        }
        Ok(())
    }
}

pub fn label(k: &Key) -> String {
    let c = cast();
    for (i, n) in ["A", "B", "C", "ADMIN"].iter().enumerate() {
        if c.wallet[i] == *k {
            return format!("{n}'s wallet");
        }
        if c.orca_ata[i] == *k {
            return format!("{n}'s ORCA");
        }
        if c.xorca_ata[i] == *k {
            return format!("{n}'s xORCA");
        }
        for idx in 0..=255u8 {
            if pending(&c.wallet[i], idx) == *k {
                return format!("{n}'s claim #{idx}");
            }
        }
    }
    for (x, n) in [
        (&c.vault, "vault"),
        (&c.state, "state"),
        (&c.orca_mint, "ORCA mint"),
        (&c.xorca_mint, "xORCA mint"),
        (&c.deployer, "deployer"),
        (&c.token, "token program"),
        (&c.ata, "associated token program"),
        (&c.xorca, "staking program"),
        (&SYSTEM, "system program"),
    ] {
        if x == k {
            return n.to_string();
        }
    }
    solana_program::pubkey::Pubkey::new_from_array(*k).to_string()
}

// ---- C03 ----
pub struct Share;
/// (a+100)*(b+100) as (carry, low)
fn pair(a: u64, b: u64) -> (u8, u128) {
    let (lo, c) = prod(a, b).1.overflowing_add(100 * (b as u128 + 100));
    (prod(a, b).0 + c as u8, lo)
}
impl Monitor for Share {
    fn step(&self, s: &Step) -> Verdict {
        if s.res.is_err() {
            return Ok(());
        }
        let n = |w: &World| w.vault().checked_sub(w.escrow());
        let (s0, s1) = (s.pre.supply(), s.post.supply());
        let (Some(n0), Some(n1)) = (n(s.pre), n(s.post)) else { return Err(format!("'{}' leaves the vault short", s.op)) };
        if s0 == 0 || s1 == 0 {
            return Ok(());
        }
        if pair(n1, s0) < pair(n0, s1) {
            return Err(format!(
                "'{}' (amount {}) lowered what xORCA redeems for: backing/supply went from {n0}/{s0} to {n1}/{s1}",
                s.op, s.x
            ));
        }
        for u in 0..USERS as u8 {
            let h = s.pre.xo(u);
            if h > 0 && s.post.xo(u) >= h {
                let (a, b) = (redeem_out(h, n0, s0), redeem_out(h, n1, s1));
                if b < a {
                    return Err(format!("'{}' lowered the redemption value of {h} xORCA from {a:?} to {b:?}", s.op));
                }
            }
        }
        if let Op::Stake(u, _) = s.op {
            // Leaving again at once must not return more than was paid in.
            let got = s.post.xo(*u) - s.pre.xo(*u);
            let idx = (0..=255u8).rev().find(|i| s.post.acc(&pending(&who(*u), *i)).len == 0).unwrap();
            if let Some((ix, _)) = build(&Op::Unstake(*u, Amt::Fix(got), idx), s.post) {
                if let Ok(o) = run_tx(s.post, &[ix]) {
                    let back = o.world.acc(&pending(&who(*u), idx)).u64(40);
                    if back > s.x {
                        return Err(format!("staking {} and unstaking at once returns {back}", s.x));
                    }
                }
            }
        }
        if let Op::Unstake(u, _, _) = s.op {
            // Re-entering with the proceeds must not yield more xORCA than was given up.
            let p = s.post.escrow() - s.pre.escrow();
            if s.post.orca(*u) >= p {
                let (ix, _) = build(&Op::Stake(*u, Amt::Fix(p)), s.post).unwrap();
                if let Ok(o) = run_tx(s.post, &[ix]) {
                    let back = o.world.xo(*u) - s.post.xo(*u);
                    if back > s.x {
                        return Err(format!("unstaking {} xORCA and staking the proceeds yields {back}", s.x));
                    }
                }
            }
        }
        Ok(())
    }
    fn state(&self, w: &World, _: &Ghost, _: &mut Counts) -> Verdict {
        let n = w.vault() as i128 - w.escrow() as i128;
        if n < w.supply() as i128 {
            return Err(format!("{} xORCA are backed by only {n} ORCA", w.supply()));
        }
        Ok(())
    }
}

// ---- C04 ----
pub struct Cooldown;
impl Monitor for Cooldown {
    fn step(&self, s: &Step) -> Verdict {
        must_refuse(s, &[No::TooEarly, No::CoolOverflow])?;
        match (s.op, &s.res) {
            (Op::Withdraw(..), Err(e)) if refusals(s.pre, s.ghost, s.op, s.x).is_empty() => {
                return Err(format!("'{}' is refused at its release time: {e:?}", s.op));
            }
            (Op::Unstake(u, _, i), Ok(())) => {
                let want = s.pre.now.saturating_add(s.ghost.cooldown);
                let got = s.post.acc(&pending(&who(*u), *i)).u64(48) as i64;
                if want != got {
                    return Err(diff("the release time", want, got, s));
                }
            }
            _ => {}
        }
        for (k, o, i, _, t) in s.pre.claims() {
            if s.post.is_claim(&k) {
                let t1 = s.post.acc(&k).u64(48) as i64;
                if t1 != t {
                    return Err(format!("'{}' changed the release time of {}'s claim #{i} from {t} to {t1}", s.op, label(&o)));
                }
            }
        }
        Ok(())
    }
}

// ---- C05 ----
pub struct Claims;
impl Monitor for Claims {
    fn step(&self, s: &Step) -> Verdict {
        must_refuse(s, &[No::ClaimExists, No::NoClaim, No::NotOwner])?;
        if s.res.is_err() {
            // A free index can be used, an owner's ripe claim can be taken.
            return if matches!(s.op, Op::Unstake(..) | Op::Withdraw(..)) { must_accept(s) } else { Ok(()) };
        }
        let data = |w: &World| -> Vec<(Key, Vec<u8>)> {
            w.accts.iter().filter(|(k, a)| a.owner == cast().xorca && !is_state(k)).map(|(k, a)| (*k, a.full())).collect()
        };
        let (pre, post) = (data(s.pre), data(s.post));
        let mut target = None;
        match s.op {
            Op::Unstake(u, _, i) => {
                let k = pending(&who(*u), *i);
                target = Some(k);
                let a = s.post.acc(&k);
                if !s.post.is_claim(&k) || a.key(8) != who(*u) || a.u8(7) != *i {
                    return Err(format!("'{}' left no claim in the unstaker's name", s.op));
                }
            }
            Op::Withdraw(u, i) => {
                let k = pending(&who(*u), *i);
                target = Some(k);
                let promised = s.ghost.claims.get(&(*u, *i)).map(|c| c.0).unwrap_or(0);
                let paid = s.post.orca(*u) as i128 - s.pre.orca(*u) as i128;
                if paid != promised as i128 {
                    return Err(diff("the payment", promised, paid, s));
                }
                if s.post.is_claim(&k) || s.post.acc(&k).len != 0 {
                    return Err(format!("'{}' paid the claim but left it in place", s.op));
                }
            }
            _ => {}
        }
        for (k, d) in &pre {
            if Some(*k) != target && post.iter().find(|x| x.0 == *k).map(|x| &x.1) != Some(d) {
                return Err(format!("'{}' changed or removed {}", s.op, label(k)));
            }
        }
        for (k, _) in &post {
            if Some(*k) != target && !pre.iter().any(|x| x.0 == *k) {
                return Err(format!("'{}' created {}", s.op, label(k)));
            }
        }
        Ok(())
    }
    fn state(&self, w: &World, g: &Ghost, _: &mut Counts) -> Verdict {
        // The ledger's claims are exactly those history made and has not paid.
        let mut want: Vec<(Key, u64)> = g.claims.iter().map(|((u, i), (a, _, _))| (pending(&who(*u), *i), *a)).collect();
        want.sort();
        let got: Vec<(Key, u64)> = w.claims().iter().map(|c| (c.0, c.3)).collect();
        if want != got {
            return Err(format!("the ledger holds {} claims, history {} (or their amounts differ)", got.len(), want.len()));
        }
        Ok(())
    }
}

// ---- C06 ----
pub struct Config;
impl Monitor for Config {
    fn step(&self, s: &Step) -> Verdict {
        must_refuse(s, &[No::NotAuthority, No::Negative])?;
        if matches!(s.op, Op::SetCd(..) | Op::SetAuth(..)) {
            must_accept(s)?;
        }
        if s.res.is_err() || matches!(s.op, Op::Init(..)) {
            return Ok(());
        }
        let st = cast().state;
        let (mut want, got) = (s.pre.acc(&st), s.post.acc(&st));
        match s.op {
            Op::SetCd(_, cd) => want.set(16, &cd.to_le_bytes()),
            Op::SetAuth(_, t) => want.set(24, &who(*t)),
            Op::Unstake(..) | Op::Withdraw(..) => want.set(8, &got.u64(8).to_le_bytes()),
            _ => {}
        }
        if want.data != got.data || want.len != got.len || want.owner != got.owner {
            let n = (0..2048).find(|i| want.u8(*i) != got.u8(*i));
            return Err(format!(
                "'{}' changed the configuration otherwise than asked: cooldown {} authority {} (first wrong byte {n:?})",
                s.op,
                got.u64(16) as i64,
                label(&got.key(24))
            ));
        }
        if matches!(s.op, Op::SetCd(..) | Op::SetAuth(..)) {
            for (k, a) in &s.pre.accts {
                if *k != st && s.post.get(k) != Some(a) {
                    return Err(format!("'{}' changed {}", s.op, label(k)));
                }
            }
            if s.pre.accts.len() != s.post.accts.len() {
                return Err(format!("'{}' created an account", s.op));
            }
        }
        Ok(())
    }
    fn state(&self, w: &World, g: &Ghost, _: &mut Counts) -> Verdict {
        if w.get(&cast().state).is_some_and(|a| a.owner == cast().xorca) && (w.cooldown() != g.cooldown || w.authority() != g.authority) {
            return Err("the stored configuration is not the one last set".into());
        }
        Ok(())
    }
}

// ---- C10 ----
pub struct Events;
impl Monitor for Events {
    fn step(&self, s: &Step) -> Verdict {
        if s.res.is_err() {
            return Ok(());
        }
        let mut e = vec![];
        let u = |e: &mut Vec<u8>, x: u64| e.extend_from_slice(&x.to_le_bytes());
        match s.op {
            Op::Stake(..) => {
                e.push(0);
                u(&mut e, s.x);
                u(&mut e, s.post.vault());
                u(&mut e, s.post.escrow());
                u(&mut e, s.post.supply());
                u(&mut e, s.post.supply().wrapping_sub(s.pre.supply()));
            }
            Op::Unstake(who_, _, i) => {
                e.push(1);
                u(&mut e, s.x);
                u(&mut e, s.post.vault());
                u(&mut e, s.post.escrow());
                u(&mut e, s.post.supply());
                u(&mut e, s.post.acc(&pending(&who(*who_), *i)).u64(40));
                u(&mut e, s.post.cooldown() as u64);
                e.push(*i);
            }
            Op::Withdraw(_, i) => {
                e.push(2);
                u(&mut e, s.post.escrow());
                u(&mut e, s.pre.vault().wrapping_sub(s.post.vault()));
                u(&mut e, s.post.cooldown() as u64);
                e.push(*i);
            }
            Op::SetAuth(_, _) => {
                e.push(3);
                e.extend_from_slice(&s.post.authority());
                e.extend_from_slice(&s.pre.authority());
            }
            _ => return Ok(()),
        }
        if s.events.len() != 1 {
            return Err(format!("'{}' emitted {} events instead of one", s.op, s.events.len()));
        }
        if s.events[0] != e {
            return Err(format!("the event of '{}' is {:?} but what happened is {:?}", s.op, s.events[0], e));
        }
        Ok(())
    }
}

// ---- C14 ----
pub struct Liveness {
    pub probe: bool,
}
impl Liveness {
    fn withdraw_all(&self, w: &World, g: &Ghost, order: &[(u8, u8)], n: &mut Counts) -> Verdict {
        let mut w = w.clone();
        let latest = g.claims.values().map(|c| c.1).max().unwrap_or(w.now);
        w.now = w.now.max(latest);
        for (u, i) in order {
            let (ix, _) = build(&Op::Withdraw(*u, *i), &w).unwrap();
            n.probes += 1;
            match run_tx(&w, &[ix]) {
                Ok(o) => w = o.world,
                Err(e) => return Err(format!("after every cooldown, {}'s claim #{i} cannot be withdrawn: {e:?}", label(&who(*u)))),
            }
        }
        Ok(())
    }
}
impl Monitor for Liveness {
    fn step(&self, s: &Step) -> Verdict {
        if matches!(s.op, Op::Init(..)) {
            return Ok(());
        }
        must_accept(s)
    }
    fn state(&self, w: &World, g: &Ghost, n: &mut Counts) -> Verdict {
        if !self.probe || w.get(&cast().state).is_none() {
            return Ok(());
        }
        let order: Vec<(u8, u8)> = g.claims.keys().copied().collect();
        if !order.is_empty() {
            self.withdraw_all(w, g, &order, n)?;
            if order.len() > 1 {
                let mut r = order.clone();
                r.reverse();
                self.withdraw_all(w, g, &r, n)?;
            }
        }
        if w.now.checked_add(g.cooldown).is_none() {
            return Ok(());
        }
        // Everyone leaves, one after the other; then everyone is paid.
        let (mut v, mut h) = (w.clone(), g.clone());
        let mut exits = vec![];
        for u in 0..USERS as u8 {
            if v.xo(u) == 0 {
                continue;
            }
            // With all 256 indices in use he has to withdraw first, which was tried above.
            let Some(i) = (0..=255u8).rev().find(|i| !h.claims.contains_key(&(u, *i))) else { continue };
            // He can pay the deposit.
            v.put(who(u), Acc::system(v.lamports(&who(u)).max(1_000_000_000)));
            let (ix, x) = build(&Op::Unstake(u, Amt::All, i), &v).unwrap();
            n.probes += 1;
            match run_tx(&v, &[ix]) {
                Ok(o) => v = o.world,
                Err(e) => return Err(format!("{} cannot unstake all of his {x} xORCA: {e:?}", label(&who(u)))),
            }
            h.claims.insert((u, i), (0, v.now + h.cooldown, 0));
            exits.push((u, i));
        }
        if !exits.is_empty() {
            let all: Vec<(u8, u8)> = h.claims.keys().copied().collect();
            self.withdraw_all(&v, &h, &all, n)?;
        }
        Ok(())
    }
}

// ---- C15 ----
pub struct Lamports;
impl Monitor for Lamports {
    fn step(&self, s: &Step) -> Verdict {
        must_refuse(s, &[No::Lamports])?;
        if s.res.is_err() || !ours(s.op) {
            return Ok(());
        }
        let mut want: Vec<(Key, u64)> = s.pre.accts.iter().map(|(k, a)| (*k, a.lamports)).collect();
        let mut set = |k: Key, v: u64| {
            want.retain(|x| x.0 != k);
            if v > 0 {
                want.push((k, v));
            }
        };
        match s.op {
            Op::Unstake(u, _, i) => {
                let k = pending(&who(*u), *i);
                let had = s.pre.lamports(&k);
                let need = had.max(rent_min(1024));
                set(k, need);
                set(who(*u), (s.pre.lamports(&who(*u)) + had).saturating_sub(need));
                let a = s.post.acc(&k);
                if a.lamports < rent_min(a.len) {
                    return Err(format!("'{}' leaves the claim account without its rent deposit: {} lamports", s.op, a.lamports));
                }
            }
            Op::Withdraw(u, i) => {
                let k = pending(&who(*u), *i);
                let had = s.pre.lamports(&k);
                set(k, 0);
                set(who(*u), s.pre.lamports(&who(*u)) + had);
            }
            Op::Init(..) => return Ok(()),
            _ => {}
        }
        want.sort();
        let got: Vec<(Key, u64)> = s.post.accts.iter().filter(|x| x.1.lamports > 0).map(|(k, a)| (*k, a.lamports)).collect();
        if want != got {
            for (k, v) in &want {
                let g = s.post.lamports(k);
                if g != *v {
                    return Err(diff(&format!("lamports of {}", label(k)), v, g, s));
                }
            }
            return Err(format!("'{}' put lamports into an account it should not touch", s.op));
        }
        Ok(())
    }
    fn state(&self, w: &World, _: &Ghost, _: &mut Counts) -> Verdict {
        for c in w.claims() {
            let a = w.acc(&c.0);
            if a.lamports < rent_min(a.len) || a.len != 1024 {
                return Err(format!("a claim account of {} bytes holds only {} lamports", a.len, a.lamports));
            }
        }
        Ok(())
    }
}

// ---- C16 ----
pub struct Rate;
impl Monitor for Rate {
    fn step(&self, s: &Step) -> Verdict {
        must_refuse(s, &[No::ZeroOut, No::NoRate, No::Overflow, No::Backing])?;
        if s.res.is_err() {
            return Ok(());
        }
        let n = s.pre.vault().wrapping_sub(s.pre.escrow());
        match s.op {
            Op::Stake(u, _) => {
                let m = s.post.xo(*u) as i128 - s.pre.xo(*u) as i128;
                let want = mint_out(s.x, n, s.pre.supply());
                if want.map(|v| v as i128) != Some(m) || m == 0 {
                    return Err(diff(&format!("the xORCA received (backing {n}, supply {})", s.pre.supply()), want, m, s));
                }
            }
            Op::Unstake(u, _, i) => {
                let a = s.post.acc(&pending(&who(*u), *i)).u64(40);
                let want = redeem_out(s.x, n, s.pre.supply());
                if want != Some(a) || a == 0 {
                    return Err(diff(&format!("the ORCA promised (backing {n}, supply {})", s.pre.supply()), want, a, s));
                }
            }
            _ => {}
        }
        Ok(())
    }
}

/// All of them at once, for the environment-validation runs.
pub struct Everything;
impl Monitor for Everything {
    fn step(&self, s: &Step) -> Verdict {
        for m in all() {
            m.step(s)?;
        }
        Ok(())
    }
    fn state(&self, w: &World, g: &Ghost, n: &mut Counts) -> Verdict {
        for m in all() {
            m.state(w, g, n)?;
        }
        Ok(())
    }
}
fn all() -> [&'static dyn Monitor; 10] {
    [
        &Escrow,
        &Tokens,
        &Share,
        &Cooldown,
        &Claims,
        &Config,
        &Events,
        &Liveness { probe: false },
        &Lamports,
        &Rate,
    ]
}
