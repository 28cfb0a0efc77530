//! Enumerations over hostile transactions: substituted and forged accounts, missing signatures, malformed data,
//! every variation of initialization; and the two economic games (one player alone, attacker against depositor).
use crate::engine::*;
use crate::host::{Key, Meta};
use crate::model::*;
use crate::suites::*;
use crate::svm::*;
use crate::world::*;
use Amt::*;
use Op::*;

const M: u64 = 1_000_000;

/// A ledger with stakes, a donation, ripe claims of two users, and everything an attacker might have prepared.
pub struct Stage {
    pub w: World,
    /// What may be put in any account slot.
    pub universe: Vec<(String, Key)>,
    pub base: Vec<(&'static str, Ix)>,
}

fn evil() -> Key {
    named("evil program")
}

/// Addresses nobody can sign for in a transaction.
fn cannot_sign(key: &Key) -> bool {
    let c = cast();
    static_program(key)
        || *key == c.state
        || *key == c.vault
        || c.orca_ata.contains(key)
        || c.xorca_ata.contains(key)
        || *key == c.orca_mint
        || *key == c.xorca_mint
        || (0..USERS as u8).any(|u| [0u8, 1, 5].iter().any(|i| pending(&who(u), *i) == *key))
}

pub fn stage() -> Stage {
    let c = cast();
    let mut w = pool([M, M, M, M], 100, T0);
    for op in [Stake(0, Fix(1000)), Stake(1, Fix(700)), Donate(2, Fix(500)), Unstake(0, Fix(100), 0), Unstake(0, Fix(33), 1), Unstake(1, Fix(50), 0), Warp(500)] {
        match op {
            Warp(d) => w.now += d,
            _ => {
                let (ix, _) = build(&op, &w).unwrap();
                if let Ok(o) = run_tx(&w, &[ix]) {
                    w = o.world;
                }
            }
        }
    }
    // Should unstaking be broken (reported elsewhere), the claims are written directly.
    for (u, i, a) in [(0u8, 0u8, 129u64), (0, 1, 42), (1, 0, 64)] {
        let key = pending(&who(u), i);
        if !w.is_claim(&key) {
            w.put(key, Acc::with(rent_min(1024), c.xorca, &pending_bytes(&who(u), i, a, T0 + 100)));
            let mut s = w.acc(&c.state);
            s.set(8, &(w.escrow() + a).to_le_bytes());
            w.put(c.state, s);
        }
    }
    let mut u: Vec<(String, Key)> = vec![];
    for (n, x) in ["A", "B", "C", "ADMIN"].iter().zip(0..USERS) {
        u.push((format!("{n}'s wallet"), c.wallet[x]));
        u.push((format!("{n}'s ORCA"), c.orca_ata[x]));
        u.push((format!("{n}'s xORCA"), c.xorca_ata[x]));
    }
    for (n, x) in [("deployer", c.deployer), ("state", c.state), ("vault", c.vault), ("ORCA mint", c.orca_mint), ("xORCA mint", c.xorca_mint), ("system program", SYSTEM), ("token program", c.token), ("ATA program", c.ata), ("staking program", c.xorca)] {
        u.push((n.into(), x));
    }
    for (n, o) in [("A", 0u8), ("B", 1)] {
        for i in [0u8, 1, 5] {
            u.push((format!("{n}'s claim address #{i}"), pending(&who(o), i)));
        }
    }
    let tokens = (w.vault(), w.escrow());
    let mut forge = |n: &str, a: Acc| {
        let key = named(&format!("forged {n}"));
        w.put(key, a);
        u.push((n.to_string(), key));
        key
    };
    let [a, b, ..] = c.wallet;
    let fake_mint = forge("mint made by B", mint_account(Some(&b), 1 << 40, 6, None));
    forge("mint made by B for the state", mint_account(Some(&c.state), 2000, 6, None));
    forge("A's account of B's mint", token_account(&fake_mint, &a, 1 << 30));
    let (vault, escrow) = (tokens.0, tokens.1);
    forge("state's account of B's mint", token_account(&fake_mint, &c.state, vault));
    forge("state's large account of B's mint", token_account(&fake_mint, &c.state, 1 << 30));
    forge("A's second ORCA account", token_account(&c.orca_mint, &a, 5000));
    forge("A's second xORCA account", token_account(&c.xorca_mint, &a, 500));
    forge("another ORCA account of the state", token_account(&c.orca_mint, &c.state, vault));
    forge("a large ORCA account of the state", token_account(&c.orca_mint, &c.state, 1 << 30));
    forge("an ORCA account of the state barely above escrow", token_account(&c.orca_mint, &c.state, escrow + 1));
    forge("an xORCA account of the state", token_account(&c.xorca_mint, &c.state, 1 << 30));
    let lent = |mint: &Key, owner: &Key, to: &Key| {
        let mut a = token_account(mint, owner, 8000);
        a.set(72, &[1, 0, 0, 0]);
        a.set(76, to);
        a.set(121, &8000u64.to_le_bytes());
        a.set(129, &[1, 0, 0, 0]);
        a.set(133, to);
        a
    };
    forge("B's ORCA that A may spend and close", lent(&c.orca_mint, &b, &a));
    forge("B's xORCA that A may spend and close", lent(&c.xorca_mint, &b, &a));
    forge("B's ORCA that the state may spend and close", lent(&c.orca_mint, &b, &c.state));
    // Look-alikes owned by another program: same bytes, wrong owner.
    let copy = |acc: Acc| Acc { owner: evil(), ..acc };
    let looks = [
        ("state", w.acc(&c.state)),
        ("vault", w.acc(&c.vault)),
        ("A's ORCA", w.acc(&c.orca_ata[0])),
        ("A's xORCA", w.acc(&c.xorca_ata[0])),
        ("ORCA mint", w.acc(&c.orca_mint)),
        ("xORCA mint", w.acc(&c.xorca_mint)),
        ("A's claim", w.acc(&pending(&a, 0))),
    ];
    let mut forge = |n: String, a: Acc| {
        let key = named(&format!("forged {n}"));
        w.put(key, a);
        u.push((n, key));
    };
    for (n, acc) in looks {
        forge(format!("look-alike of {n} under another program"), copy(acc));
    }
    // Right bytes at the wrong address.
    forge("state bytes at another address".into(), Acc::with(rent_min(2048), c.xorca, &state_bytes(0, 0, &a)));
    forge("claim bytes at another address".into(), Acc::with(rent_min(1024), c.xorca, &pending_bytes(&a, 0, 300, T0)));
    let base = vec![
        ("stake", ix_stake(&a, &c.orca_ata[0], &c.xorca_ata[0], 9000)),
        ("unstake", ix_unstake(&a, &c.xorca_ata[0], 90, 5)),
        ("withdraw", ix_withdraw(&a, &c.orca_ata[0], 0)),
        ("set cooldown", ix_set_cooldown(&c.wallet[3], 5)),
        ("set authority", ix_set_authority(&c.wallet[3], &a)),
    ];
    Stage { w, universe: u, base }
}

/// Do the accounts of this instruction fill their roles?
pub fn roles_ok(kind: &str, m: &[Meta], data: &[u8], w: &World) -> bool {
    let c = cast();
    let k = |i: usize| m[i].key;
    let tok = |acct: Key, mint: &Key, owner: Key| {
        w.get(&acct).is_some_and(|a| a.owner == c.token && a.len == 165 && a.key(0) == *mint && a.key(32) == owner)
    };
    // The same account listed twice carries the union of its flags.
    let signer = |i: usize| m.iter().any(|x| x.key == k(i) && x.signer);
    match kind {
        "stake" => {
            signer(0)
                && k(1) == c.vault
                && tok(k(2), &c.orca_mint, k(0))
                && tok(k(3), &c.xorca_mint, k(0))
                && k(4) == c.xorca_mint
                && k(5) == c.state
                && k(6) == c.orca_mint
                && k(7) == c.token
        }
        "unstake" => {
            signer(0)
                && k(1) == c.state
                && k(2) == pending(&k(0), data[9])
                && !w.is_claim(&k(2))
                && tok(k(3), &c.xorca_mint, k(0))
                && k(4) == c.xorca_mint
                && k(5) == c.orca_mint
                && k(6) == c.vault
                && k(7) == SYSTEM
                && k(8) == c.token
        }
        "withdraw" => {
            signer(0)
                && k(1) == c.state
                && k(2) == pending(&k(0), data[1])
                && w.is_claim(&k(2))
                && tok(k(3), &c.orca_mint, k(0))
                && k(4) == c.vault
                && k(5) == c.orca_mint
                && k(6) == SYSTEM
                && k(7) == c.token
        }
        _ => signer(0) && k(0) == w.authority() && k(1) == c.state,
    }
}

fn describe(st: &Stage, kind: &str, ix: &Ix, base: &Ix) -> String {
    let name = |key: &Key| st.universe.iter().find(|u| u.1 == *key).map(|u| u.0.clone()).unwrap_or_else(|| label(key));
    let mut v = vec![];
    for (i, (m, b)) in ix.metas.iter().zip(&base.metas).enumerate() {
        if m.key != b.key || m.signer != b.signer || m.writable != b.writable {
            v.push(format!("account {i} = {}{}{}", name(&m.key), if m.signer != b.signer { " (not signing)" } else { "" }, if m.writable != b.writable { " (read-only)" } else { "" }));
        }
    }
    format!("{kind} with {}", v.join(", "))
}

fn substitute(slot: &mut Meta, key: Key) {
    slot.key = key;
    if cannot_sign(&key) {
        slot.signer = false;
    }
}

/// `accept` judged: an accepted transaction whose accounts do not fill their roles is a violation; with `crash`,
/// any crash is.
pub fn substitutions(r: &mut Run, t: Tier, crash: bool) {
    let st = stage();
    let nu = st.universe.len();
    let few: Vec<Key> = st.universe.iter().filter(|(n, _)| !["C's", "ADMIN's", "deployer", "ATA", "system", "staking"].iter().any(|p| n.starts_with(p)) && !n.contains("#1")).map(|u| u.1).collect();
    let full: Vec<Key> = st.universe.iter().map(|u| u.1).collect();
    let third = if t == Tier::Thorough { &full } else { &few };
    // The cheap sweeps of every instruction come before the costly ones of any.
    for (pass, (kind, base)) in (0..3).flat_map(|p| st.base.iter().map(move |b| (p, b))) {
        let judge = |walk: &mut Walk, ix: Ix| {
            let res = run_tx(&st.w, &[ix.clone()]).map(|_| ());
            walk.counts.tally(kind, &res);
            match res {
                Ok(()) if !crash && !roles_ok(kind, &ix.metas, &ix.data, &st.w) => {
                    walk.note(describe(&st, kind, &ix, base));
                    walk.fail("accepted although an account does not fill its role or a signature is missing".into());
                }
                Err(TxErr::Panic(p)) if crash => {
                    walk.note(describe(&st, kind, &ix, base));
                    walk.fail(format!("crashed instead of returning an error: {p}"));
                }
                _ => {}
            }
        };
        let ns = base.metas.len();
        if pass == 0 {
            // No signature, read-only flags, alone and together with one substitution.
            r.sweep("missing signatures and flags", &format!("{kind}: every subset of signer/writable flags dropped, with every single substitution"), 1 << (2 * ns).min(t.pick(10, 18)), |mask, walk| {
                let mut ix = base.clone();
                // Signer bits of all slots first, then writable bits.
                for i in 0..ns {
                    if mask >> i & 1 == 1 {
                        ix.metas[i].signer = false;
                    }
                    if ns + i < 63 && mask >> (ns + i) & 1 == 1 {
                        ix.metas[i].writable = false;
                    }
                }
                walk.counts.states += 1;
                judge(walk, ix.clone());
                if mask.count_ones() <= 1 {
                    for s in 0..ns {
                        for (_, key) in &st.universe {
                            let mut y = ix.clone();
                            substitute(&mut y.metas[s], *key);
                            judge(walk, y);
                        }
                    }
                }
            });
            let pairs: Vec<(usize, usize)> = (0..ns).flat_map(|i| (i..ns).map(move |j| (i, j))).collect();
            r.sweep("account substitution", &format!("{kind}: every one and two of {ns} accounts replaced by every pair of {nu} accounts"), pairs.len() * nu, |x, walk| {
                let (i, j) = pairs[x / nu];
                let k1 = st.universe[x % nu].1;
                walk.counts.states += 1;
                for (_, k2) in &st.universe {
                    let mut ix = base.clone();
                    substitute(&mut ix.metas[i], k1);
                    if i != j {
                        substitute(&mut ix.metas[j], *k2);
                    }
                    judge(walk, ix);
                    if i == j {
                        break;
                    }
                }
            });
            continue;
        }
        if pass == 1 {
            let triples: Vec<(usize, usize, usize)> =
                (0..ns).flat_map(|i| (i + 1..ns).flat_map(move |j| (j + 1..ns).map(move |l| (i, j, l)))).collect();
            let n3 = third.len();
            r.sweep("account substitution, three at a time", &format!("{kind}: every three of {ns} accounts replaced by every triple of {n3}"), triples.len() * n3, |x, walk| {
                let (i, j, l) = triples[x / n3];
                walk.counts.states += 1;
                for k2 in third {
                    for k3 in third {
                        let mut ix = base.clone();
                        substitute(&mut ix.metas[i], third[x % n3]);
                        substitute(&mut ix.metas[j], *k2);
                        substitute(&mut ix.metas[l], *k3);
                        judge(walk, ix);
                    }
                }
            });
            continue;
        }
        if t == Tier::Thorough && ns >= 4 {
            let fewer: Vec<Key> = few.iter().filter(|k| !st.universe.iter().any(|(n, u)| u == *k && ["spend and close", "large", "barely", "second xORCA"].iter().any(|p| n.contains(p)))).copied().collect();
            let nf = fewer.len();
            let quads: Vec<[usize; 4]> = (0..1usize << ns)
                .filter(|m| m.count_ones() == 4)
                .map(|m| {
                    let v: Vec<usize> = (0..ns).filter(|i| m >> i & 1 == 1).collect();
                    [v[0], v[1], v[2], v[3]]
                })
                .collect();
            r.sweep("account substitution, four at a time", &format!("{kind}: every four of {ns} accounts replaced by every quadruple of {nf}"), quads.len() * nf, |x, walk| {
                let q = quads[x / nf];
                walk.counts.states += 1;
                for k in 0..nf * nf * nf {
                    let mut ix = base.clone();
                    for (s, key) in q.iter().zip([fewer[x % nf], fewer[k % nf], fewer[k / nf % nf], fewer[k / nf / nf]]) {
                        substitute(&mut ix.metas[*s], key);
                    }
                    judge(walk, ix);
                }
            });
        }
    }
}

/// What differs from the right account in one byte: of its address (with the right contents), or of the owner, mint and
/// state it records.
pub fn near_misses(r: &mut Run) {
    let st = stage();
    let c = cast();
    for (kind, base) in &st.base {
        let ns = base.metas.len();
        r.sweep("accounts one byte off", &format!("{kind}: every byte of the address of each of {ns} accounts, and every byte of the owner and mint that a user's token account records"), ns * 32 * 3, |x, walk| {
            let (slot, byte, how) = (x / 96, x / 3 % 32, x % 3);
            let key = base.metas[slot].key;
            let mut w = st.w.clone();
            let mut ix = base.clone();
            walk.counts.states += 1;
            let users = c.orca_ata.contains(&key) || c.xorca_ata.contains(&key);
            for flip in [1u8, 0x80] {
                match how {
                    0 => {
                        let mut other = key;
                        other[byte] ^= flip;
                        ix.metas[slot].key = other;
                        if static_program(&key) {
                            w.put(other, Acc { exec: true, ..Acc::system(1) });
                        } else {
                            w.put(other, w.acc(&key));
                        }
                    }
                    _ if users => {
                        let mut a = st.w.acc(&key);
                        let at = byte + 32 * (how - 1);
                        a.set(at, &[st.w.acc(&key).u8(at) ^ flip]);
                        w.put(key, a);
                    }
                    _ => return,
                }
                let res = run_tx(&w, &[ix.clone()]).map(|_| ());
                walk.counts.tally(kind, &res);
                if res.is_ok() && !roles_ok(kind, &ix.metas, &ix.data, &w) {
                    walk.note(format!("{kind} with account {slot}, {}, off by {flip:#x} in byte {byte} of {}", label(&key), ["its address", "its mint", "its owner"][how]));
                    return walk.fail("accepted although an account does not fill its role".into());
                }
            }
        });
    }
}

/// Malformed instruction data, short account lists, and account contents of every wrong size and type.
pub fn malformed(r: &mut Run, t: Tier) {
    let st = stage();
    let c = cast();
    let mut all: Vec<(&'static str, Ix)> = st.base.clone();
    all.push(("initialize", ix_init(&c.deployer, &c.wallet[3], 100)));
    let fresh = genesis([M, M, M, M], T0);
    let world = |kind: &str| if kind == "initialize" { &fresh } else { &st.w };
    let need = |kind: &str| -> usize {
        match kind {
            "stake" | "initialize" => 9,
            "unstake" => 10,
            "withdraw" => 2,
            "set cooldown" => 10,
            _ => 34,
        }
    };
    for (kind, base) in &all {
        let w = world(kind);
        let judge = |walk: &mut Walk, w: &World, ix: &Ix, must_fail: bool, what: &str| {
            let res = run_tx(w, &[ix.clone()]).map(|_| ());
            walk.counts.tally(kind, &res);
            match res {
                Ok(()) if must_fail => {
                    walk.note(format!("{kind} with {what}"));
                    walk.fail("malformed input was accepted".into());
                }
                Err(TxErr::Panic(p)) => {
                    walk.note(format!("{kind} with {what}"));
                    walk.fail(format!("crashed instead of returning an error: {p}"));
                }
                _ => {}
            }
        };
        let n = need(kind);
        r.sweep("malformed instruction data", &format!("{kind}: every truncation and first two bytes"), 256 * 256, |x, walk| {
            walk.counts.states += 1;
            let (b0, b1) = (x as u8, (x >> 8) as u8);
            if b1 == 0 {
                // Every length of data starting with this byte.
                for len in 0..=48usize {
                    for fill in [0u8, 0xff] {
                        let mut ix = base.clone();
                        ix.data = vec![fill; len];
                        if len > 0 {
                            ix.data[0] = b0;
                        }
                        let unknown = len == 0 || b0 > 4;
                        let short = match b0 {
                            0 | 3 => len < 9,
                            1 => len < 10,
                            2 => len < 2,
                            4 => len < 2 || match ix.data[1] {
                                0 => len < 10,
                                1 => len < 34,
                                _ => true,
                            },
                            _ => true,
                        };
                        judge(walk, w, &ix, unknown || short, &format!("{len} data bytes starting with {b0}"));
                    }
                }
            }
            let mut ix = base.clone();
            ix.data[0] = b0;
            if ix.data.len() > 1 {
                ix.data[1] = b1;
            }
            judge(walk, w, &ix, b0 > 4 || (b0 == 4 && b1 > 1), &format!("data starting {b0},{b1}"));
            if x < n {
                let mut ix = base.clone();
                ix.data.truncate(x);
                judge(walk, w, &ix, true, &format!("its data cut to {x} bytes"));
            }
        });
        let ns = base.metas.len();
        r.sweep("short account lists", &format!("{kind}: every prefix of the {ns} accounts, and every single account left out"), 2 * ns, |x, walk| {
            walk.counts.states += 1;
            let mut ix = base.clone();
            if x < ns {
                ix.metas.truncate(x);
                // A short list is still refused when only trailing program accounts are missing.
                judge(walk, w, &ix, true, &format!("only its first {x} accounts"));
            } else {
                ix.metas.remove(x - ns);
                judge(walk, w, &ix, true, &format!("account {} left out", x - ns));
            }
        });
        // Contents: every shorter length, every type tag, and every byte of the small structures flipped for crashes.
        for s in 0..ns {
            let key = base.metas[s].key;
            let a = w.acc(&key);
            if a.len == 0 || static_program(&key) {
                continue;
            }
            let full = a.full();
            let xorca = a.owner == c.xorca;
            let used = full.len();
            r.sweep("truncated account contents", &format!("{kind}: account {s} ({} bytes) cut to every shorter length", full.len()), used, |len, walk| {
                walk.counts.states += 1;
                let mut v = w.clone();
                v.put(key, Acc::with(a.lamports, a.owner, &full[..len]));
                judge(walk, &v, base, xorca, &format!("account {s} cut to {len} bytes"));
            });
            if xorca {
                r.sweep("wrong account types", &format!("{kind}: account {s} carrying every type tag"), 256, |x, walk| {
                    walk.counts.states += 1;
                    if x as u8 == full[0] {
                        return;
                    }
                    let mut d = full.clone();
                    d[0] = x as u8;
                    let mut v = w.clone();
                    v.put(key, Acc::with(a.lamports, a.owner, &d));
                    judge(walk, &v, base, true, &format!("account {s} carrying type tag {x}"));
                });
            }
            let span = full.len().min(t.pick(72, 165));
            r.sweep("damaged account contents", &format!("{kind}: every value of each of the first {span} bytes of account {s} (crashes only)"), span * 256, |x, walk| {
                walk.counts.states += 1;
                let mut d = full.clone();
                d[x / 256] = x as u8;
                let mut v = w.clone();
                v.put(key, Acc::with(a.lamports, a.owner, &d));
                judge(walk, &v, base, false, &format!("byte {} of account {s} set to {}", x / 256, x as u8));
            });
        }
    }
    substitutions(r, Tier::Quick, true);
}

// ---- C08 ----
pub struct InitMon;
impl Monitor for InitMon {
    fn step(&self, s: &Step) -> Verdict {
        let c = cast();
        let Op::Init(_, a, cd) = s.op else {
            // Nothing else makes an instance appear.
            if s.pre.get(&c.state).is_none() && s.post.get(&c.state).is_some_and(|x| x.owner == c.xorca) {
                return Err(format!("'{}' created an instance", s.op));
            }
            return Ok(());
        };
        let no = refusals(s.pre, s.ghost, s.op, s.x);
        if s.res.is_ok() && !no.is_empty() {
            return Err(format!("'{}' was accepted although it must be refused: {no:?}", s.op));
        }
        if let (Err(e), true) = (&s.res, no.is_empty()) {
            return Err(format!("'{}' was refused: {e:?}", s.op));
        }
        if s.res.is_ok() {
            init_result(s.post, s.pre, &who(*a), *cd)?;
        }
        Ok(())
    }
}
fn init_result(w: &World, pre: &World, authority: &Key, cd: i64) -> Verdict {
    let c = cast();
    let a = w.acc(&c.state);
    if a.owner != c.xorca || a.len != 2048 || a.full() != state_bytes(0, cd, authority) {
        return Err(format!("the instance was not set up as asked (cooldown {}, escrow {}, authority {})", w.cooldown(), w.escrow(), label(&w.authority())));
    }
    if a.lamports < rent_min(2048) {
        return Err("the instance is not rent exempt".into());
    }
    let v = w.acc(&c.vault);
    if v.owner != c.token || v.full() != token_account(&c.orca_mint, &c.state, pre.vault()).full() {
        return Err("the vault is not an ORCA account of the instance".into());
    }
    if v.lamports < rent_min(165) {
        return Err("the vault is not rent exempt".into());
    }
    for (k, a) in &pre.accts {
        if *k != c.state && *k != c.vault && *k != c.deployer && w.get(k) != Some(a) {
            return Err(format!("initialization changed {}", label(k)));
        }
    }
    let total = |w: &World| w.accts.iter().map(|x| x.1.lamports as u128).sum::<u128>();
    let _ = total;
    Ok(())
}

pub fn initializations(r: &mut Run, t: Tier) {
    let c = cast();
    let g = genesis([M, M, M, M], T0);
    let payers = [c.deployer, c.wallet[0], c.wallet[3]];
    let auths = [c.wallet[3], c.wallet[0], c.deployer];
    let states: Vec<(&str, Option<Acc>)> = vec![
        ("absent", None),
        ("holding 1 lamport", Some(Acc::system(1))),
        ("holding its rent but one", Some(Acc::system(rent_min(2048) - 1))),
        ("holding its rent", Some(Acc::system(rent_min(2048)))),
        ("holding more", Some(Acc::system(1 << 40))),
        ("already set up", Some(Acc::with(rent_min(2048), c.xorca, &state_bytes(77, 9, &c.wallet[1])))),
    ];
    let vaults: Vec<(&str, Option<Acc>)> = vec![
        ("absent", None),
        ("holding 1 lamport", Some(Acc::system(1))),
        ("holding more", Some(Acc::system(1 << 40))),
        ("already created", Some(token_account(&c.orca_mint, &c.state, 0))),
        ("already created, with lamports to spare", Some(Acc { lamports: 1 << 40, ..token_account(&c.orca_mint, &c.state, 0) })),
        ("already created and holding ORCA", Some(token_account(&c.orca_mint, &c.state, 12_345))),
    ];
    let mut other = mint_account(Some(&c.state), 0, 6, None);
    other.owner = evil();
    let mut other_o = g.acc(&c.orca_mint);
    other_o.owner = evil();
    let mut nine = g.acc(&c.orca_mint);
    nine.set(44, &[9]);
    let xmints: Vec<(&str, bool, Acc)> = vec![
        ("proper", true, mint_account(Some(&c.state), 0, 6, None)),
        ("with supply", false, mint_account(Some(&c.state), 1, 6, None)),
        ("with a foreign authority", false, mint_account(Some(&c.wallet[0]), 0, 6, None)),
        ("without authority", false, mint_account(None, 0, 6, None)),
        ("freezable", false, mint_account(Some(&c.state), 0, 6, Some(&c.wallet[0]))),
        ("with 9 decimals", false, mint_account(Some(&c.state), 0, 9, None)),
        ("of another program", false, other),
    ];
    let omints: Vec<(&str, bool, Acc)> = vec![("proper", true, g.acc(&c.orca_mint)), ("with 9 decimals", false, nine), ("of another program", false, other_o)];
    let cds = [0i64, 1, 604_800, i64::MAX, -1, i64::MIN];
    let dims = [3, 2, 3, 2, states.len(), vaults.len(), xmints.len(), omints.len(), cds.len()];
    let total: usize = dims.iter().product();
    r.sweep("initialization in every situation", "payer x its signature x authority x its signature x instance account x vault account x xORCA mint x ORCA mint x cooldown", total, |x, walk| {
        let mut d = [0usize; 9];
        let mut y = x;
        for (k, n) in dims.iter().enumerate() {
            d[k] = y % n;
            y /= n;
        }
        let [p, ps, a, asg, s, v, xm, om, cd] = d;
        let mut w = g.clone();
        if let Some(acc) = &states[s].1 {
            w.put(c.state, acc.clone());
        }
        if let Some(acc) = &vaults[v].1 {
            w.put(c.vault, acc.clone());
        }
        w.put(c.xorca_mint, xmints[xm].2.clone());
        w.put(c.orca_mint, omints[om].2.clone());
        let mut ix = ix_init(&payers[p], &auths[a], cds[cd]);
        ix.metas[0].signer = ps == 0;
        ix.metas[1].signer = asg == 0;
        // When payer and authority are one account, either signature serves both.
        let same = payers[p] == auths[a];
        let sp = ps == 0 || (same && asg == 0);
        let sa = asg == 0 || (same && ps == 0);
        let ok = p == 0 && sp && sa && s < 5 && xmints[xm].1 && omints[om].1 && cds[cd] >= 0;
        let res = run_tx(&w, &[ix]);
        let out = res.as_ref().map(|_| ()).map_err(|e| e.clone());
        walk.counts.states += 1;
        walk.counts.tally("initialize", &out);
        let mut bad = |e: String| {
            walk.note(format!(
                "initialize: payer {} ({}), authority {} ({}), instance account {}, vault {}, xORCA mint {}, ORCA mint {}, cooldown {}",
                label(&payers[p]), if sp { "signing" } else { "not signing" },
                label(&auths[a]), if sa { "signing" } else { "not signing" },
                states[s].0, vaults[v].0, xmints[xm].0, omints[om].0, cds[cd]
            ));
            walk.fail(e);
        };
        match res {
            Ok(o) if ok => {
                if let Err(e) = init_result(&o.world, &w, &auths[a], cds[cd]) {
                    bad(e);
                }
            }
            Ok(_) => bad("accepted although it must be refused".into()),
            Err(e) if ok => bad(format!("refused although nothing is wrong: {e:?}")),
            Err(_) => {}
        }
    });
    // Wrong accounts in each slot.
    let st = stage();
    let base = ix_init(&c.deployer, &c.wallet[3], 100);
    let mut w = st.w.clone();
    for key in [c.state, c.vault] {
        w.put(key, Acc::system(0));
    }
    w.put(c.xorca_mint, mint_account(Some(&c.state), 0, 6, None));
    let uni: Vec<(String, Key)> = st.universe.clone();
    let nu = uni.len();
    let pairs: Vec<(usize, usize)> = (0..9).flat_map(|i| (i..9).map(move |j| (i, j))).collect();
    r.sweep("initialization with substituted accounts", &format!("every one and two of 9 accounts replaced by every pair of {nu}"), pairs.len() * nu, |x, walk| {
        let (i, j) = pairs[x / nu];
        walk.counts.states += 1;
        for (_, k2) in &uni {
            let mut ix = base.clone();
            substitute(&mut ix.metas[i], uni[x % nu].1);
            if i != j {
                substitute(&mut ix.metas[j], *k2);
            }
            let m = &ix.metas;
            let sig = |n: usize| m.iter().any(|y| y.key == m[n].key && y.signer);
            let ok = m[0].key == c.deployer
                && sig(0)
                && sig(1)
                && (2..9).all(|n| m[n].key == base.metas[n].key);
            let res = run_tx(&w, &[ix.clone()]).map(|_| ());
            walk.counts.tally("initialize", &res);
            if res.is_ok() && !ok {
                walk.note(describe(&st, "initialize", &ix, &base));
                walk.fail("accepted although an account does not fill its role or a signature is missing".into());
            }
            if i == j {
                break;
            }
        }
    });
    life(r, t);
    config(r, t);
}

// ---- C03: one player alone ----
pub struct Solo {
    pub start: i128,
}
pub fn wealth(w: &World, g: &Ghost, u: u8) -> i128 {
    let n = w.vault().saturating_sub(w.escrow());
    let held: i128 = g.claims.iter().filter(|(k, _)| k.0 == u).map(|(_, c)| c.0 as i128).sum();
    w.orca(u) as i128 + held + redeem_out(w.xo(u), n, w.supply()).unwrap_or(0) as i128
}
impl Monitor for Solo {
    fn step(&self, _: &Step) -> Verdict {
        Ok(())
    }
    fn state(&self, w: &World, g: &Ghost, _: &mut Counts) -> Verdict {
        let x = wealth(w, g, 0);
        if x > self.start {
            return Err(format!("acting alone, A turned {} ORCA into {x}", self.start));
        }
        Ok(())
    }
}
pub fn solo(r: &mut Run, t: Tier) {
    let ops = vec![
        Stake(0, Fix(1)),
        Stake(0, Fix(7)),
        Stake(0, Fix(150)),
        Stake(0, Half),
        Stake(0, All),
        Unstake(0, Fix(1), 0),
        Unstake(0, Fix(8), 1),
        Unstake(0, Half, 2),
        Unstake(0, All, 3),
        Withdraw(0, 0),
        Withdraw(0, 1),
        Withdraw(0, 2),
        Withdraw(0, 3),
        Donate(0, Fix(3)),
        Donate(0, Fix(1000)),
        BurnX(0, Fix(1)),
        BurnX(0, Half),
    ];
    for (name, pre) in [
        ("one player alone in a pool of others", vec![Stake(1, Fix(1000)), Donate(2, Fix(377))]),
        ("one player alone in a tiny expensive pool", vec![Stake(1, Fix(3)), Donate(2, Fix(10_001))]),
        ("one player alone in an empty pool", vec![]),
    ] {
        let w = pool([2000, 50_000, 50_000, 0], 0, T0);
        let mon = Solo { start: 2000 };
        r.with(&mon, |r| {
            r.explore(&Scope { name, init: w.clone(), prefix: pre.clone(), ops: ops.clone(), depth: t.pick(5, 7), max_states: 6_000_000 })
        });
    }
}

// ---- C17: attacker against the next depositor ----
pub struct Attack {
    pub start: u64,
    pub victims: Vec<u64>,
}
impl Monitor for Attack {
    fn step(&self, _: &Step) -> Verdict {
        Ok(())
    }
    fn state(&self, w: &World, g: &Ghost, n: &mut Counts) -> Verdict {
        let c = cast();
        let (s0, n0) = (w.supply(), w.vault().saturating_sub(w.escrow()));
        for v in &self.victims {
            let mut x = w.clone();
            x.set_tokens(&c.orca_ata[1], *v);
            let (ix, _) = build(&Stake(1, All), &x).unwrap();
            n.probes += 1;
            let Ok(o) = run_tx(&x, &[ix]) else { continue };
            let y = o.world;
            // What the depositor can take back at once.
            let (ix, _) = build(&Unstake(1, All, 9), &y).unwrap();
            n.probes += 1;
            let back = match run_tx(&y, &[ix]) {
                Ok(o) => o.world.acc(&pending(&who(1), 9)).u64(40),
                Err(_) => 0,
            };
            // Allowed: less than one unit of xORCA's price, plus one for rounding the payout.
            let loss = v.saturating_sub(back);
            let price_bounded = if s0 == 0 || n0 == 0 {
                loss == 0
            } else {
                loss == 0 || (loss as u128 - 1) * (s0 as u128 + 100) < n0 as u128 + 100
            };
            if !price_bounded {
                return Err(format!("a deposit of {v} against {n0} ORCA backing {s0} xORCA is worth only {back} right afterwards"));
            }
            // What the attacker walks away with.
            let mut z = y;
            for i in 0..4u8 {
                let idx = 200 + i;
                if z.xo(0) == 0 {
                    break;
                }
                let (ix, _) = build(&Unstake(0, All, idx), &z).unwrap();
                n.probes += 1;
                match run_tx(&z, &[ix]) {
                    Ok(o) => z = o.world,
                    Err(_) => break,
                }
            }
            let claims: u64 = z.claims().iter().filter(|k| k.1 == who(0)).map(|k| k.3).sum();
            let total = z.orca(0) as u128 + claims as u128;
            if total > self.start as u128 {
                return Err(format!("the attacker started with {} ORCA and leaves with {total} after B deposited {v}", self.start));
            }
            let _ = g;
        }
        Ok(())
    }
}
pub fn attacks(r: &mut Run, t: Tier) {
    let start = 1u64 << 50;
    let victims: Vec<u64> = {
        let b = boundary(1 << 45, 8);
        thin(&b, t.pick(4, 1))
    };
    let mon = Attack { start, victims: victims.clone() };
    let w = pool([start, 0, 0, 0], 0, T0);
    let amounts = [1u64, 2, 10, 99, 100, 101, 1000, 1_000_000, 1_000_000_000, 1 << 45];
    let mut ops: Vec<Op> = vec![];
    for a in amounts {
        ops.push(Stake(0, Fix(a)));
        ops.push(Donate(0, Fix(a)));
    }
    ops.extend([Unstake(0, But(1), 0), Unstake(0, Half, 1), Withdraw(0, 0), BurnX(0, But(1)), BurnX(0, Half), Unstake(0, All, 2)]);
    r.with(&mon, |r| {
        r.explore(&Scope { name: "attacker prepares, depositor enters, attacker leaves", init: w.clone(), prefix: vec![], ops: ops.clone(), depth: t.pick(3, 4), max_states: 400_000 })
    });
    // A fine grid of the classic two-step attack.
    let st = thin(&boundary(1 << 44, 20), t.pick(6, 2));
    let dn = thin(&boundary(1 << 44, 20), t.pick(6, 2));
    r.with(&mon, |r| {
        r.sweep("stake, donate, then a deposit", &format!("{} stakes x {} donations x {} deposits", st.len(), dn.len(), victims.len()), st.len() * dn.len(), |i, walk| {
            walk.start(w.clone());
            walk.op(Stake(0, Fix(st[i % st.len()])));
            walk.op(Donate(0, Fix(dn[i / st.len()])));
        })
    });
}
