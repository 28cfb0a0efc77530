//! The bounded spaces that are enumerated completely. Each suite is judged by whichever monitor the run carries.
use crate::engine::*;
use crate::svm::*;
use crate::world::*;
use Amt::*;
use Op::*;

pub const T0: i64 = 1_700_000_000;
const M: u64 = 1_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// Numbers around which arithmetic, casts and comparisons tend to change behaviour.
pub fn boundary(max: u64, dense: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..=dense).collect();
    for b in 3..64u32 {
        let p = 1u64 << b;
        v.extend([p - 1, p, p + 1]);
    }
    for e in 1..19u32 {
        let p = 10u64.pow(e);
        v.extend([p - 1, p, p + 1, 3 * p + 7]);
    }
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}
/// Every k-th element, always keeping the ends.
pub fn thin(v: &[u64], k: usize) -> Vec<u64> {
    let n = v.len();
    v.iter().enumerate().filter(|(i, _)| i % k == 0 || i + 1 == n).map(|(_, x)| *x).collect()
}

fn econ_ops() -> Vec<Op> {
    vec![
        Stake(0, Fix(1)),
        Stake(0, Fix(150)),
        Stake(1, Fix(97)),
        Stake(1, Half),
        Unstake(0, Fix(1), 0),
        Unstake(0, All, 0),
        Unstake(0, Half, 1),
        Unstake(1, All, 0),
        Unstake(1, Over, 1),
        Withdraw(0, 0),
        Withdraw(0, 1),
        Withdraw(1, 0),
        Donate(2, Fix(33)),
        Donate(2, Fix(1000)),
        BurnX(0, Fix(1)),
        XferX(0, 1, Half),
        Warp(10),
    ]
}

pub fn econ(r: &mut Run, t: Tier) {
    let w = pool([M, M, M, M], 10, T0);
    let depth = t.pick(6, 8);
    for (name, prefix) in [
        ("exchange from an empty pool", vec![]),
        ("exchange at 1.377 ORCA per xORCA", vec![Stake(0, Fix(1000)), Donate(2, Fix(377))]),
        ("exchange at about 100 ORCA per xORCA", vec![Stake(0, Fix(7)), Stake(1, Fix(3)), Donate(2, Fix(10_001))]),
        ("exchange with ORCA left over after everyone went", vec![Stake(0, Fix(500)), Donate(2, Fix(250)), Unstake(0, All, 0), Donate(2, Fix(11))]),
    ] {
        r.explore(&Scope { name, init: w.clone(), prefix, ops: econ_ops(), depth, max_states: 6_000_000 });
    }
}

pub fn time(r: &mut Run, t: Tier) {
    let w = pool([M, M, M, M], 100, T0);
    let ops = vec![
        Unstake(0, Fix(10), 0),
        Unstake(0, Fix(20), 1),
        Unstake(1, Fix(15), 0),
        Withdraw(0, 0),
        Withdraw(0, 1),
        Withdraw(1, 0),
        Warp(1),
        Warp(50),
        Warp(99),
        Warp(100),
        SetCd(ADMIN, 0),
        SetCd(ADMIN, 51),
        SetCd(ADMIN, 1000),
        SetCd(ADMIN, i64::MAX),
        SetCd(0, 0),
    ];
    r.explore(&Scope {
        name: "cooldowns, their changes and the passing of time",
        init: w,
        prefix: vec![Stake(0, Fix(1000)), Stake(1, Fix(500)), Donate(2, Fix(123))],
        ops,
        depth: t.pick(7, 9),
        max_states: 6_000_000,
    });
}

pub fn claims(r: &mut Run, t: Tier) {
    let w = pool([M, M, M, M], 100, T0);
    let mut ops = vec![];
    for u in 0..2u8 {
        for i in [0u8, 1, 255] {
            ops.push(Unstake(u, Fix(10 + i as u64), i));
            ops.push(Withdraw(u, i));
        }
        ops.push(Steal(1 - u, u, 0));
        ops.push(Steal(1 - u, u, 255));
        ops.push(Steal(2, u, 1));
    }
    ops.extend([
        Unstake(2, All, 0),
        Withdraw(2, 0),
        XferX(0, 2, Fix(100)),
        Prefund(2, 0, 0, 1_000_000),
        Prefund(2, 1, 255, rent_min(1024) + 5),
        Warp(100),
    ]);
    r.explore(&Scope {
        name: "claims of three users under several indices",
        init: w,
        prefix: vec![Stake(0, Fix(1000)), Stake(1, Fix(500)), Donate(2, Fix(500))],
        ops,
        depth: t.pick(6, 8),
        max_states: 6_000_000,
    });
}

pub fn config(r: &mut Run, t: Tier) {
    let w = pool([M, M, M, M], 100, T0);
    let mut ops = vec![];
    for u in [0u8, 1, ADMIN] {
        ops.push(SetCd(u, 0));
        ops.push(SetCd(u, 7 + u as i64));
        for v in [0u8, 1, ADMIN] {
            ops.push(SetAuth(u, v));
        }
    }
    ops.extend([
        SetCd(ADMIN, -1),
        SetCd(ADMIN, i64::MIN),
        SetCd(ADMIN, i64::MAX),
        Stake(0, Fix(70)),
        Stake(ADMIN, Fix(40)),
        Unstake(0, Half, 0),
        Unstake(ADMIN, All, 3),
        Withdraw(0, 0),
        Withdraw(ADMIN, 3),
        Init(255, 1, 1),
        Init(0, 0, 0),
        Warp(200),
    ]);
    r.explore(&Scope {
        name: "the update authority and everyone else",
        init: w,
        prefix: vec![],
        ops,
        depth: t.pick(6, 8),
        max_states: 4_000_000,
    });
}

pub fn scale(r: &mut Run, t: Tier) {
    let big = 1u64 << 61;
    let w = pool([big, big, big, big], 0, T0);
    let ops = vec![
        Stake(0, Fix((1 << 40) + 1)),
        Stake(0, Fix((1 << 53) + 1)),
        Stake(0, Half),
        Stake(1, Fix(u32::MAX as u64 + 1)),
        Stake(1, All),
        Stake(1, Over),
        Unstake(0, Fix(1 << 32), 0),
        Unstake(0, All, 0),
        Unstake(0, Half, 1),
        Unstake(1, But(1), 0),
        Withdraw(0, 0),
        Withdraw(0, 1),
        Withdraw(1, 0),
        Donate(2, Fix(1 << 50)),
        Donate(2, Half),
        BurnX(0, Half),
        XferX(0, 1, Half),
    ];
    r.explore(&Scope { name: "amounts up to 2^61", init: w, prefix: vec![], ops, depth: t.pick(6, 7), max_states: 6_000_000 });
}

pub fn life(r: &mut Run, t: Tier) {
    let w = genesis([M, M, M, M], T0);
    let ops = vec![
        Init(255, ADMIN, 100),
        Init(255, 0, 5),
        Init(255, 255, 0),
        Init(255, ADMIN, -1),
        Init(0, ADMIN, 100),
        Init(ADMIN, ADMIN, 0),
        Stake(0, Fix(100)),
        Stake(0, Fix(0)),
        Unstake(0, All, 0),
        Unstake(0, Fix(0), 1),
        Withdraw(0, 0),
        SetCd(ADMIN, 1),
        SetCd(0, 1),
        SetAuth(ADMIN, 0),
        SetAuth(0, 1),
        Donate(1, Fix(50)),
        Warp(100),
    ];
    r.explore(&Scope { name: "from before initialization", init: w, prefix: vec![], ops, depth: t.pick(7, 9), max_states: 4_000_000 });
}

/// A mixed alphabet at the greatest depth.
pub fn mixed(r: &mut Run, t: Tier) {
    let w = pool([M, M, M, M], 10, T0);
    let ops = vec![
        Stake(0, Fix(150)),
        Stake(1, Fix(97)),
        Unstake(0, Half, 0),
        Unstake(1, All, 0),
        Withdraw(0, 0),
        Withdraw(1, 0),
        Donate(2, Fix(333)),
        Warp(10),
        SetCd(ADMIN, 3),
        SetAuth(ADMIN, 0),
        Prefund(2, 0, 0, 1_000_000),
    ];
    r.explore(&Scope { name: "a mixed alphabet, deeper", init: w, prefix: vec![], ops, depth: t.pick(9, 11), max_states: 6_000_000 });
}

/// Operations from which transactions of two, three (and four) instructions are made.
fn tx_ops() -> Vec<Op> {
    vec![
        Stake(0, Fix(50)),
        Unstake(0, Fix(30), 0),
        Unstake(0, Half, 7),
        Withdraw(0, 0),
        Withdraw(0, 7),
        Stake(1, Fix(60)),
        Unstake(1, Fix(20), 0),
        Withdraw(1, 0),
        Donate(2, Fix(77)),
        SetCd(ADMIN, 5),
        SetCd(ADMIN, 0),
        SetAuth(ADMIN, 1),
        SetCd(1, 9),
        Prefund(2, 0, 0, 1_000_000),
        Steal(1, 0, 0),
        XferX(0, 1, Fix(15)),
        BurnX(0, Fix(5)),
    ]
}
pub fn multi(r: &mut Run, t: Tier) {
    let ops = tx_ops();
    let n = ops.len();
    let starts: Vec<(&str, Vec<Op>)> = vec![
        ("fresh", vec![]),
        ("staked", vec![Stake(0, Fix(1000)), Stake(1, Fix(400)), Donate(2, Fix(333))]),
        (
            "claims ripe",
            vec![
                Stake(0, Fix(1000)),
                Stake(1, Fix(400)),
                Donate(2, Fix(333)),
                Unstake(0, Fix(100), 0),
                Unstake(0, Fix(50), 7),
                Unstake(1, Fix(33), 0),
                Warp(100),
            ],
        ),
        ("claim unripe", vec![Stake(0, Fix(1000)), Unstake(0, Fix(100), 0), Warp(99)]),
    ];
    for cd in [100i64, 0] {
        for (name, prefix) in &starts {
            let len = t.pick(3, 4);
            let total = n.pow(len as u32);
            let w0 = pool([M, M, M, M], cd, T0);
            r.sweep(
                "several instructions in one transaction",
                &format!("every sequence of {len} of {n} instructions as one transaction, cooldown {cd}, start: {name}"),
                total,
                |i, walk| {
                    walk.start(w0.clone());
                    walk.ops(prefix);
                    let mut v = vec![];
                    let mut j = i;
                    for _ in 0..len {
                        v.push(ops[j % n].clone());
                        j /= n;
                    }
                    walk.op(Tx(v[..2].to_vec()));
                    if len > 2 {
                        let mut w = Walk { mon: walk.mon, counts: std::mem::take(&mut walk.counts), trace: std::mem::take(&mut walk.trace), failed: walk.failed.take(), w: World::default(), g: Ghost::default() };
                        if w.failed.is_none() {
                            w.trace.clear();
                            w.start(w0.clone());
                            w.ops(prefix);
                            w.op(Tx(v.clone()));
                        }
                        walk.counts = std::mem::take(&mut w.counts);
                        walk.trace = w.trace;
                        walk.failed = w.failed;
                        walk.w = w.w;
                        walk.g = w.g;
                    }
                },
            );
        }
    }
}

/// Every claim index, alone and in pairs.
pub fn indices(r: &mut Run, t: Tier) {
    let w0 = pool([M, M, M, M], 100, T0);
    let start = |walk: &mut Walk| {
        walk.start(w0.clone());
        walk.ops(&[Stake(0, Fix(5000)), Stake(1, Fix(4000)), Donate(2, Fix(1234))]);
    };
    r.sweep("every claim index", "all 256 indices: make, take too early, make again, take, take again, reuse", 256, |i, walk| {
        let i = i as u8;
        start(walk);
        walk.ops(&[
            Unstake(0, Fix(100), i),
            Withdraw(0, i),
            Unstake(0, Fix(50), i),
            Steal(1, 0, i),
            Unstake(1, Fix(70), i),
            Warp(99),
            Withdraw(0, i),
            Warp(1),
            Unstake(0, Fix(50), i),
            Steal(1, 0, i),
            Withdraw(0, i.wrapping_add(1)),
            Withdraw(0, i),
            Withdraw(0, i),
            Unstake(0, Fix(51), i),
            Withdraw(0, i),
            Steal(0, 1, i),
            Withdraw(1, i),
            Warp(100),
            Withdraw(0, i),
        ]);
    });
    let k = t.pick(3, 1);
    let vals: Vec<u8> = (0..=255u8).filter(|i| i % k == 0 || *i == 255 || i.count_ones() == 1).collect();
    let n = vals.len();
    r.sweep("every pair of claim indices", &format!("all ordered pairs of {n} indices for one user, and one index each of two users"), n * n, |x, walk| {
        let (i, j) = (vals[x / n], vals[x % n]);
        start(walk);
        if i == j {
            return;
        }
        walk.ops(&[Unstake(0, Fix(100), i), Warp(1), Unstake(0, Fix(57), j), Unstake(1, Fix(31), i), Warp(99), Withdraw(0, j), Withdraw(0, i), Unstake(0, Fix(9), i), Withdraw(1, i), Warp(1), Withdraw(1, j), Withdraw(0, j), Withdraw(1, i)]);
    });
    r.sweep("all 256 claims of one user at once", "made in order, taken in four orders", 4, |o, walk| {
        start(walk);
        for i in 0..=255u8 {
            walk.op(Unstake(0, Fix(2 + i as u64 % 13), i));
            if i % 16 == 0 {
                walk.op(Warp(1));
            }
        }
        walk.op(Unstake(0, Fix(5), 17));
        walk.op(Warp(100));
        for i in 0..=255u8 {
            let i = match o {
                0 => i,
                1 => 255 - i,
                2 => i.wrapping_mul(77),
                _ => i.reverse_bits(),
            };
            walk.op(Withdraw(0, i));
        }
    });
}

/// As much as a mint of 64 bits can hold, in one pool (but 100, so that amount x (free ORCA + 100) fits 128 bits).
pub fn vast(r: &mut Run, t: Tier) {
    let top = u64::MAX - 100;
    let mut all: Vec<u64> = vec![];
    for b in [1u64 << 62, 3 << 61, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, 3 << 62, top] {
        for d in [0u64, 1, 2, 99, 100, 101, 1000, 1 << 20, 1 << 40] {
            all.push(b - d);
        }
    }
    all.sort();
    all.dedup();
    let xs = thin(&all, t.pick(2, 1));
    let n = all.len();
    r.sweep(
        "pools as large as a mint can be",
        &format!("{n} stakes x 4 donations out of 2^64-101 ORCA, {} amounts unstaked in two claims and paid", xs.len()),
        n * 4,
        |i, walk| {
            let s0 = all[i % n];
            let rest = top - s0;
            let d = [0, 1.min(rest), rest / 2, rest][i / n];
            walk.start(pool([s0, 0, d, 0], 0, T0));
            walk.op(Stake(0, All));
            walk.op(Donate(2, All));
            let (w, g) = (walk.w.clone(), walk.g.clone());
            let mark = walk.trace.len();
            for x in &xs {
                if walk.failed.is_some() {
                    return;
                }
                walk.w = w.clone();
                walk.g = g.clone();
                walk.trace.truncate(mark);
                walk.op(Unstake(0, Fix(*x), 7));
                walk.op(Unstake(0, All, 8));
                walk.op(Withdraw(0, 7));
                walk.op(Withdraw(0, 8));
                walk.op(Stake(0, All));
            }
        },
    );
}

/// One stake and one unstake of every amount in pools of every shape.
pub fn amounts(r: &mut Run, t: Tier) {
    let max = 1u64 << 62;
    let shape = thin(&boundary(max, 12), t.pick(11, 4));
    let xs = thin(&boundary(1 << 61, 8), t.pick(5, 1));
    let esc = [0u64, 1, 40];
    let n = shape.len();
    r.sweep(
        "every amount in pools of every shape",
        &format!("{n} stakes x {n} donations x {} escrow fractions, then {} amounts each staked and unstaked", esc.len(), xs.len()),
        n * n * esc.len(),
        |i, walk| {
            let (s0, d, e) = (shape[i % n], shape[i / n % n], esc[i / n / n]);
            if s0 == 0 {
                return;
            }
            walk.start(pool([s0, 0, d, 0], 0, T0));
            walk.op(Stake(0, All));
            walk.op(Donate(2, All));
            if e > 0 {
                let x = (walk.w.xo(0) as u128 * e as u128 / 100) as u64;
                walk.op(Unstake(0, Fix(x), 9));
            }
            let (w, g) = (walk.w.clone(), walk.g.clone());
            let mark = walk.trace.len();
            for x in &xs {
                if walk.failed.is_some() {
                    return;
                }
                // The newcomer has what he stakes, and a little to spare.
                walk.w = w.clone();
                walk.g = g.clone();
                walk.trace.truncate(mark);
                let c = cast();
                walk.w.set_tokens(&c.orca_ata[1], x + 3);
                walk.note(format!("B has {} ORCA", x + 3));
                walk.op(Stake(1, Fix(*x)));
                walk.op(Unstake(1, All, 1));
                walk.op(Withdraw(1, 1));
                // More than there is.
                for over in [4u64, 1 << 63, u64::MAX - 1, u64::MAX] {
                    walk.op(Stake(1, Fix(x.saturating_add(over))));
                    walk.op(Unstake(1, Fix(x.saturating_add(over)), 3));
                }
                if *x <= w.xo(0) {
                    if walk.failed.is_some() {
                        return;
                    }
                    walk.w = w.clone();
                    walk.g = g.clone();
                    walk.trace.truncate(mark);
                    walk.op(Unstake(0, Fix(*x), 2));
                    walk.op(Withdraw(0, 2));
                }
            }
        },
    );
}

/// Pools put on the ledger directly, also ones whose xORCA is worth far less or more than any history makes it.
pub fn placed(r: &mut Run, t: Tier) {
    let max = u64::MAX;
    let v = thin(&boundary(max, 2).into_iter().chain([99, 100, 101, max - 101, max - 100, max - 99, max - 1, max]).collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>(), t.pick(6, 2));
    let xs = thin(&boundary(max, 2).into_iter().chain([max - 1, max]).collect::<Vec<_>>(), t.pick(4, 1));
    let esc = [0u64, 1, 1 << 40, max];
    let n = v.len();
    r.sweep(
        "pools of arbitrary backing and supply",
        &format!("{n} amounts of free ORCA x {n} supplies x {} escrows, {} amounts each staked and unstaked", esc.len(), xs.len()),
        n * n * esc.len(),
        |i, walk| {
            let (free, supply, escrow) = (v[i % n], v[i / n % n], esc[i / n / n]);
            let Some(vault) = free.checked_add(escrow) else { return };
            let c = cast();
            let mut w = pool([0; USERS], 0, T0);
            w.set_tokens(&c.vault, vault);
            w.put(c.xorca_mint, mint_account(Some(&c.state), supply, 6, None));
            w.set_tokens(&c.xorca_ata[0], supply);
            let mut st = w.acc(&c.state);
            st.set(8, &escrow.to_le_bytes());
            w.put(c.state, st);
            for x in &xs {
                if walk.failed.is_some() {
                    return;
                }
                let mut y = w.clone();
                y.set_tokens(&c.orca_ata[1], *x);
                walk.start(y);
                walk.trace.clear();
                walk.note(format!("{free} free ORCA, {escrow} escrowed, {supply} xORCA"));
                walk.op(Stake(1, Fix(*x)));
                if *x <= supply && walk.failed.is_none() {
                    walk.start(w.clone());
                    walk.trace.clear();
                    walk.note(format!("{free} free ORCA, {escrow} escrowed, {supply} xORCA"));
                    walk.op(Unstake(0, Fix(*x), 2));
                }
            }
        },
    );
}

/// Small pools exhaustively: every supply, backing, escrow and amount up to a bound.
pub fn small_amounts(r: &mut Run, t: Tier) {
    let (s, d, x) = t.pick((14u64, 14u64, 24u64), (60, 60, 90));
    r.sweep(
        "every small pool and amount",
        &format!("stake 1..={s}, donation 0..={d}, then stake and unstake of 0..={x}"),
        (s * (d + 1)) as usize,
        |i, walk| {
            let (s0, d0) = (1 + i as u64 % s, i as u64 / s);
            walk.start(pool([s0, 0, d0, 0], 0, T0));
            walk.op(Stake(0, All));
            walk.op(Donate(2, All));
            let (w, g) = (walk.w.clone(), walk.g.clone());
            let mark = walk.trace.len();
            for a in 0..=x {
                if walk.failed.is_some() {
                    return;
                }
                walk.w = w.clone();
                walk.g = g.clone();
                walk.trace.truncate(mark);
                walk.w.set_tokens(&cast().orca_ata[1], x);
                walk.note(format!("B has {x} ORCA"));
                walk.op(Stake(1, Fix(a)));
                walk.op(Unstake(1, Half, 1));
                walk.op(Unstake(1, All, 2));
                if a <= w.xo(0) {
                    if walk.failed.is_some() {
                        return;
                    }
                    walk.w = w.clone();
                    walk.g = g.clone();
                    walk.trace.truncate(mark);
                    walk.op(Unstake(0, Fix(a), 2));
                    walk.op(Withdraw(0, 2));
                }
            }
        },
    );
}

/// Clock, cooldown and the moment of withdrawal.
pub fn clocks(r: &mut Run, t: Tier) {
    let mut nows = vec![0i64, 1, T0, i32::MAX as i64 - 1, i32::MAX as i64, u32::MAX as i64, u32::MAX as i64 + 1, 1 << 40, i64::MAX - 1, i64::MAX];
    let mut cds = vec![0i64, 1, 2, 59, 60, 3600, 86_400, 604_800, i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64, u32::MAX as i64 + 1, 1 << 53, i64::MAX / 2, i64::MAX - T0, i64::MAX - T0 + 1, i64::MAX - 1, i64::MAX];
    if t == Tier::Thorough {
        for b in 1..63 {
            nows.push(1 << b);
            cds.extend([(1i64 << b) - 1, 1 << b, (1 << b) + 1]);
        }
    }
    for v in [&mut nows, &mut cds] {
        v.sort();
        v.dedup();
    }
    let later = [0i64, 1, 604_800, i64::MAX];
    let n = nows.len() * cds.len();
    r.sweep(
        "clock, cooldown and the moment of withdrawal",
        &format!("{} clocks x {} cooldowns x {} later cooldowns, withdrawal before, at and after release", nows.len(), cds.len(), later.len() + 1),
        n,
        |i, walk| {
            let (now, cd) = (nows[i % nows.len()], cds[i / nows.len()]);
            let base = |walk: &mut Walk| {
                walk.trace.clear();
                walk.start(pool([M, M, M, M], cd, now));
                walk.note(format!("clock {now}, cooldown {cd}"));
                walk.ops(&[Stake(0, Fix(1000)), Donate(2, Fix(100)), Unstake(0, Fix(100), 4)]);
            };
            for l in 0..=later.len() {
                if walk.failed.is_some() {
                    return;
                }
                base(walk);
                if l < later.len() {
                    walk.op(SetCd(ADMIN, later[l]));
                    walk.op(Unstake(0, Fix(33), 5));
                }
                walk.op(Withdraw(0, 4));
                if cd > 1 {
                    walk.op(Warp(cd / 2));
                    walk.op(Withdraw(0, 4));
                    walk.op(Warp(cd - 1 - cd / 2));
                    walk.op(Withdraw(0, 4));
                    walk.op(Warp(1));
                } else {
                    walk.op(Warp(cd));
                }
                walk.op(Withdraw(0, 4));
                walk.op(Withdraw(0, 5));
                if l < later.len() {
                    walk.op(Warp(later[l]));
                    walk.op(Withdraw(0, 5));
                }
            }
        },
    );
}

/// Lamports sitting at a claim address beforehand, and poor stakers.
pub fn prefunds(r: &mut Run, t: Tier) {
    let full = rent_min(1024);
    let mut ls = vec![0, 1, 2, rent_min(0) - 1, rent_min(0), rent_min(0) + 1, 1_000_000, full / 2, full - 1, full, full + 1, 10 * full, 1 << 40];
    ls.extend(boundary(1 << 42, 0));
    ls.sort();
    ls.dedup();
    let ls = if t == Tier::Quick { thin(&ls, 3).into_iter().chain([1, rent_min(0), full - 1, full, full + 1]).collect() } else { ls };
    let wallets = [0u64, 1, rent_min(0), 10_000_000_000];
    let idx = [0u8, 1, 128, 255];
    let n = ls.len();
    let c = cast();
    r.sweep(
        "lamports at the claim address",
        &format!("{n} prefunded amounts x 4 indices x {} wallet surpluses (and one lamport too few)", wallets.len()),
        n * idx.len() * (wallets.len() + 1),
        |x, walk| {
            let (l, i, wl) = (ls[x % n], idx[x / n % idx.len()], x / n / idx.len());
            walk.start(pool([M, M, M, M], 100, T0));
            walk.ops(&[Stake(0, Fix(1000)), Stake(1, Fix(1000)), Donate(2, Fix(100))]);
            let lack = full.saturating_sub(l);
            let have = if wl < wallets.len() { lack + wallets[wl] } else { lack.saturating_sub(1) };
            // A wallet below rent exemption cannot exist.
            let have = have.max(rent_min(0));
            walk.w.put(c.wallet[0], Acc::system(have));
            walk.note(format!("A has {have} lamports"));
            walk.op(PrefundRaw(0, i, l));
            walk.op(Unstake(0, Fix(10), i));
            walk.op(Unstake(1, Fix(10), i));
            // Lamports arriving while the claim is outstanding are refunded with it.
            walk.op(Prefund(2, 0, i, 1_234_567));
            walk.op(Warp(100));
            walk.op(Withdraw(0, i));
            walk.op(Withdraw(1, i));
            walk.op(Prefund(2, 0, i, 1_234_567));
            walk.op(Unstake(0, Fix(11), i));
            walk.op(Warp(100));
            walk.op(Withdraw(0, i));
        },
    );
}

/// Configuration changes by everyone to every kind of value.
pub fn settings(r: &mut Run, _t: Tier) {
    let mut cds: Vec<i64> = vec![];
    for b in 0..63 {
        cds.extend([(1i64 << b) - 1, 1 << b, (1i64 << b) + 1, -(1i64 << b)]);
    }
    cds.extend([i64::MAX, i64::MIN, i64::MIN + 1, -1, 604_800]);
    cds.sort();
    cds.dedup();
    r.sweep("every kind of cooldown", &format!("{} cooldown values set by the authority and by others, one after the other", cds.len()), cds.len(), |i, walk| {
        let cd = cds[i];
        walk.start(pool([M, M, M, M], 100, T0));
        walk.ops(&[Stake(0, Fix(1000)), Unstake(0, Fix(10), 0)]);
        for by in [0u8, 255, ADMIN] {
            walk.op(SetCd(by, cd));
            walk.op(Unstake(0, Fix(10), 1 + by % 100));
        }
        walk.op(SetAuth(ADMIN, 1));
        walk.op(SetCd(ADMIN, cd));
        walk.op(SetCd(1, cd));
        walk.op(SetCd(1, 5));
        walk.op(Unstake(0, Fix(10), 200));
        walk.op(SetAuth(ADMIN, ADMIN));
        walk.op(SetAuth(1, 1));
        walk.op(SetCd(1, cd));
    });
    // Authority to whoever and whatever there is, who must not have it before and has it alone afterwards.
    let all: Vec<u8> = NOBODIES.chain(ALMOST_ADMIN).chain(THINGS).collect();
    r.sweep("every kind of authority", &format!("handing the authority to {} keys: single-byte ones, ones that differ from the authority's in one byte, accounts of the pool", all.len()), all.len(), |i, walk| {
        let to = all[i];
        walk.start(pool([M, M, M, M], 100, T0));
        walk.ops(&[Stake(0, Fix(1000)), Unstake(0, Fix(10), 0)]);
        if ALMOST_ADMIN.contains(&to) {
            walk.ops(&[SetCd(to, 7), SetAuth(to, to)]);
        }
        walk.op(SetAuth(ADMIN, to));
        walk.ops(&[SetCd(ADMIN, 8), SetAuth(ADMIN, ADMIN), SetCd(0, 9), SetAuth(255, 255)]);
        if ALMOST_ADMIN.contains(&to) {
            walk.ops(&[SetCd(to, 11), SetAuth(to, ADMIN), SetCd(to, 12), SetCd(ADMIN, 13)]);
        }
        walk.op(Unstake(0, Fix(10), 1));
    });
    // Authority chains: every path of four holders, everyone trying at every point.
    r.sweep("authority chains", "every chain of four holders among four users and the deployer, everyone trying at each point", 625, |i, walk| {
        walk.start(pool([M, M, M, M], 100, T0));
        walk.ops(&[Stake(0, Fix(1000)), Unstake(0, Fix(10), 0)]);
        let ppl = [0u8, 1, 2, ADMIN, 255];
        let mut holder = ADMIN;
        let mut x = i;
        for k in 0..4 {
            for p in ppl {
                walk.op(SetCd(p, 10 + k));
                if p != holder {
                    walk.op(SetAuth(p, p));
                }
            }
            let next = ppl[x % 5];
            x /= 5;
            walk.op(SetAuth(holder, next));
            holder = next;
        }
    });
}

pub fn shared(r: &mut Run, t: Tier) {
    indices(r, t);
    clocks(r, t);
    prefunds(r, t);
    settings(r, t);
    small_amounts(r, t);
    amounts(r, t);
    vast(r, t);
    multi(r, t);
    life(r, t);
    config(r, t);
    time(r, t);
    econ(r, t);
    claims(r, t);
    scale(r, t);
    mixed(r, t);
}

/// What is put to the other client: everything distinct has to be kept, so the widest spaces stay as they are.
pub fn wired(r: &mut Run, t: Tier) {
    indices(r, t);
    clocks(r, t);
    prefunds(r, t);
    settings(r, t);
    small_amounts(r, t);
    amounts(r, Tier::Quick);
    vast(r, t);
    multi(r, t);
    life(r, t);
    config(r, t);
    time(r, Tier::Quick);
    econ(r, Tier::Quick);
    claims(r, t);
    scale(r, Tier::Quick);
    mixed(r, Tier::Quick);
}

/// The spaces in which rates differ.
pub fn quoted(r: &mut Run, t: Tier) {
    placed(r, t);
    small_amounts(r, t);
    amounts(r, t);
    vast(r, t);
    scale(r, t);
    econ(r, t);
    mixed(r, t);
}
