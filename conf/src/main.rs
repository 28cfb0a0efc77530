//! Conformance of `mc/src/svm.rs`: every distinct transaction that the explorations execute is executed again
//! inside LiteSVM (Agave's own runtime: account rules, CPI, System program, and the deployed SPL Token and
//! Associated Token program binaries), from the same ledger, and the outcomes are compared.
use solana_account::{Account, AccountSharedData, ReadableAccount};
use solana_clock::Clock;
use solana_instruction::{error::InstructionError, AccountMeta, Instruction};
use solana_message::{Message, VersionedMessage};
use solana_program_runtime::{declare_process_instruction, invoke_context::InvokeContext, serialization};
use solana_pubkey::Pubkey;
use solana_stable_layout::stable_instruction::StableInstruction;
use solana_transaction::versioned::VersionedTransaction;
use solana_transaction_error::TransactionError;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;
use xmc::engine::{Counts, Monitor, Run, Step, Verdict};
use xmc::forge::{initializations, malformed};
use xmc::host::{self, Host, Key, Meta, Ran};
use xmc::suites::{placed, shared, Tier};
use xmc::svm::{ids, static_program, Acc, Ix, TxErr, TxOut, World, MAX_GROW, OBSERVER};

thread_local! {
    static EVENTS: RefCell<Vec<Vec<u8>>> = const { RefCell::new(vec![]) };
    static SVM: RefCell<Option<Machine>> = const { RefCell::new(None) };
}

/// The staking program running natively inside Agave's invoke context.
struct Frame<'a, 'b> {
    ctx: &'a mut InvokeContext<'b>,
    buf: *mut u8,
    size: usize,
    accts: Vec<Slot>,
    failed: Option<InstructionError>,
}

/// A distinct instruction account: its place in the instruction, its header's offset, and its length at the start.
struct Slot {
    index: u16,
    key: Key,
    at: usize,
    len: usize,
}

impl Frame<'_, '_> {
    fn bytes(&mut self) -> &'static mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.buf, self.size) }
    }
    fn places(b: &[u8]) -> Vec<Slot> {
        let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
        let mut o = 8;
        let mut v = vec![];
        for index in 0..n {
            if b[o] != 0xff {
                o += 8;
                continue;
            }
            let len = u64::from_le_bytes(b[o + 80..o + 88].try_into().unwrap()) as usize;
            v.push(Slot { index: index as u16, key: b[o + 8..o + 40].try_into().unwrap(), at: o, len });
            o += 88 + len + MAX_GROW;
            o = ((o + 7) & !7) + 8;
        }
        v
    }
    /// As the runtime's CPI does: what the program has done so far to the accounts it hands over.
    fn hand_over(&mut self, named: &[Key]) -> Result<(), InstructionError> {
        let b = self.bytes();
        let tc = &self.ctx.transaction_context;
        let ic = tc.get_current_instruction_context()?;
        for s in self.accts.iter().filter(|s| named.contains(&s.key)) {
            let o = s.at;
            let u = |x: usize| u64::from_le_bytes(b[x..x + 8].try_into().unwrap());
            let (lamports, len) = (u(o + 72), u(o + 80) as usize);
            if len > s.len + MAX_GROW {
                return Err(InstructionError::InvalidRealloc);
            }
            let mut a = ic.try_borrow_instruction_account(tc, s.index)?;
            if a.get_lamports() != lamports {
                a.set_lamports(lamports)?;
            }
            let data = &b[o + 88..o + 88 + len];
            match a.can_data_be_resized(len).and_then(|_| a.can_data_be_changed()) {
                Ok(()) => a.set_data_from_slice(data)?,
                Err(e) if a.get_data() != data => return Err(e),
                Err(_) => {}
            }
            if a.get_owner().as_ref() != &b[o + 40..o + 72] {
                a.set_owner(&b[o + 40..o + 72])?;
            }
        }
        Ok(())
    }
    /// What the callee did, shown to the program.
    fn take_back(&mut self, named: &[Key]) -> Result<(), InstructionError> {
        let b = self.bytes();
        let tc = &self.ctx.transaction_context;
        let ic = tc.get_current_instruction_context()?;
        for s in self.accts.iter().filter(|s| named.contains(&s.key)) {
            let a = ic.try_borrow_instruction_account(tc, s.index)?;
            let o = s.at;
            let data = a.get_data();
            if data.len() > s.len + MAX_GROW {
                return Err(InstructionError::InvalidRealloc);
            }
            let old = u64::from_le_bytes(b[o + 80..o + 88].try_into().unwrap()) as usize;
            b[o + 40..o + 72].copy_from_slice(a.get_owner().as_ref());
            b[o + 72..o + 80].copy_from_slice(&a.get_lamports().to_le_bytes());
            b[o + 80..o + 88].copy_from_slice(&(data.len() as u64).to_le_bytes());
            if data.len() < old {
                b[o + 88 + data.len()..o + 88 + old].fill(0);
            }
            b[o + 88..o + 88 + data.len()].copy_from_slice(data);
        }
        Ok(())
    }
    fn call(&mut self, program: Key, metas: &[Meta], data: Vec<u8>, signers: Vec<Vec<Vec<u8>>>) -> Result<(), InstructionError> {
        let caller = *self.ctx.transaction_context.get_current_instruction_context()?.get_last_program_key(self.ctx.transaction_context)?;
        let mut pdas = vec![];
        for s in &signers {
            let v: Vec<&[u8]> = s.iter().map(|x| x.as_slice()).collect();
            pdas.push(Pubkey::create_program_address(&v, &caller).map_err(|_| InstructionError::InvalidSeeds)?);
        }
        let ix = Instruction {
            program_id: Pubkey::new_from_array(program),
            accounts: metas
                .iter()
                .map(|m| AccountMeta { pubkey: Pubkey::new_from_array(m.key), is_signer: m.signer, is_writable: m.writable })
                .collect(),
            data,
        };
        let named: Vec<Key> = metas.iter().map(|m| m.key).collect();
        let ix: StableInstruction = ix.into();
        // Privileges are judged before anything is handed over.
        self.ctx.prepare_instruction(&ix, &pdas)?;
        self.hand_over(&named)?;
        self.ctx.native_invoke(ix, &pdas)?;
        let written: Vec<Key> = named
            .iter()
            .filter(|k| {
                let tc = &self.ctx.transaction_context;
                let ic = tc.get_current_instruction_context().unwrap();
                self.accts.iter().find(|s| s.key == **k).is_some_and(|s| ic.is_instruction_account_writable(s.index).unwrap_or(false))
            })
            .cloned()
            .collect();
        self.take_back(&written)
    }
}

impl Host for Frame<'_, '_> {
    fn unix_timestamp(&self) -> i64 {
        self.ctx.get_sysvar_cache().get_clock().map(|c| c.unix_timestamp).unwrap_or(0)
    }
    fn log_data(&mut self, fields: Vec<Vec<u8>>) {
        EVENTS.with(|e| e.borrow_mut().push(fields.concat()));
    }
    fn invoke(&mut self, program: Key, metas: Vec<Meta>, data: Vec<u8>, signers: Vec<Vec<Vec<u8>>>) -> Result<(), String> {
        self.call(program, &metas, data, signers).map_err(|e| {
            let s = format!("{e:?}");
            self.failed = Some(e);
            s
        })
    }
}

declare_process_instruction!(Staking, 1, |invoke_context| {
    let (mut mem, metas, n) = {
        let tc = &invoke_context.transaction_context;
        let ic = tc.get_current_instruction_context()?;
        let (mem, _, metas) = serialization::serialize_parameters(tc, ic, true, true)?;
        (mem, metas, ())
    };
    let _: () = n;
    let buf = mem.as_slice_mut();
    let (ptr, size) = (buf.as_mut_ptr(), buf.len());
    let accts = Frame::places(buf);
    let mut f = Frame { ctx: invoke_context, buf: ptr, size, accts, failed: None };
    let ran = host::run_program(&mut f, ptr);
    let failed = f.failed.take();
    match ran {
        Ran::Code(0) => {}
        Ran::Code(c) => return Err(InstructionError::from(c)),
        Ran::Cpi(_) => return Err(failed.unwrap_or(InstructionError::MissingAccount)),
        Ran::Panic(_) => return Err(InstructionError::ProgramFailedToComplete),
    }
    let tc = &invoke_context.transaction_context;
    let ic = tc.get_current_instruction_context()?;
    serialization::deserialize_parameters(tc, ic, true, mem.as_slice(), &metas)
});

struct Machine {
    svm: litesvm::LiteSVM,
    payer: Key,
    /// What of the ledger is installed at the moment.
    set: BTreeMap<Key, Acc>,
    now: Option<i64>,
}

impl Machine {
    fn new() -> Machine {
        let mut svm = litesvm::LiteSVM::new().with_sigverify(false).with_blockhash_check(false).with_transaction_history(0);
        let id = Pubkey::new_from_array(ids().xorca);
        // It registers the function and then trips over the account it makes up for it; that one is replaced below.
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| svm.add_builtin(id, Staking::vm)));
        let native = Account { lamports: 1, data: vec![], owner: solana_sdk_ids::native_loader::ID, executable: true, rent_epoch: 0 };
        svm.set_account(id, native).unwrap();
        let payer = [0xfe; 32];
        let rich = Account { lamports: 1 << 50, data: vec![], owner: Pubkey::default(), executable: false, rent_epoch: 0 };
        svm.set_account(Pubkey::new_from_array(payer), rich).unwrap();
        Machine { svm, payer, set: BTreeMap::new(), now: None }
    }
    fn install(&mut self, w: &World, keys: &[Key]) {
        if self.now != Some(w.now) {
            let mut c: Clock = self.svm.get_sysvar();
            c.unix_timestamp = w.now;
            self.svm.set_sysvar(&c);
            self.now = Some(w.now);
        }
        for key in keys {
            let a = w.acc(key);
            if self.set.get(key) == Some(&a) {
                continue;
            }
            self.svm
                .set_account(
                    Pubkey::new_from_array(*key),
                    Account { lamports: a.lamports, data: a.full(), owner: Pubkey::new_from_array(a.owner), executable: a.exec, rent_epoch: u64::MAX },
                )
                .unwrap();
            self.set.insert(*key, a);
        }
        if self.set.len() > 4000 {
            *self = Machine::new();
            self.install(w, keys);
        }
    }
}

#[derive(Default)]
struct Tally {
    seen: Mutex<HashSet<u128>>,
    executed: AtomicU64,
    accepted: AtomicU64,
    skipped: AtomicU64,
    lenient: AtomicU64,
    refused: Mutex<BTreeMap<String, u64>>,
    differ: Mutex<Vec<String>>,
}
static TALLY: std::sync::OnceLock<Tally> = std::sync::OnceLock::new();

fn hash(w: &World, ixs: &[Ix], keys: &[Key]) -> u128 {
    let mut m = xmc::svm::Mix::new();
    m.u64(w.now as u64);
    for key in keys {
        m.bytes(key);
        let a = w.acc(key);
        m.u64(a.lamports);
        m.bytes(&a.owner);
        m.bytes(&a.data);
        m.u64(a.len as u64);
    }
    for i in ixs {
        m.bytes(&i.program);
        m.bytes(&i.data);
        for a in &i.metas {
            m.bytes(&a.key);
            m.u64(a.signer as u64 * 2 + a.writable as u64);
        }
        m.u64(i.metas.len() as u64);
    }
    m.done()
}

fn judge(w: &World, ixs: &[Ix], out: &Result<TxOut, TxErr>) {
    let t = TALLY.get().unwrap();
    let mut keys: Vec<Key> = ixs.iter().flat_map(|i| i.metas.iter().map(|m| m.key).chain([i.program])).collect();
    keys.sort();
    keys.dedup();
    // LiteSVM must have the code of whatever is executable, and keeps sysvars and programs to itself.
    if keys.iter().any(|k| !static_program(k) && w.acc(k).exec) || ixs.iter().any(|i| !static_program(&i.program)) {
        t.skipped.fetch_add(1, Relaxed);
        return;
    }
    if !t.seen.lock().unwrap().insert(hash(w, ixs, &keys)) {
        return;
    }
    let keys: Vec<Key> = keys.into_iter().filter(|k| !static_program(k) && !sysvar(k)).collect();
    SVM.with(|s| {
        let mut s = s.borrow_mut();
        let m = s.get_or_insert_with(Machine::new);
        m.install(w, &keys);
        // LiteSVM has no reserved accounts; they are taken care of here.
        let is: Vec<Instruction> = ixs
            .iter()
            .map(|i| Instruction {
                program_id: Pubkey::new_from_array(i.program),
                accounts: i.metas.iter().map(|a| AccountMeta { pubkey: Pubkey::new_from_array(a.key), is_signer: a.signer, is_writable: a.writable && !xmc::svm::reserved(&a.key) }).collect(),
                data: i.data.clone(),
            })
            .collect();
        let payer = Pubkey::new_from_array(m.payer);
        let msg = Message::new(&is, Some(&payer));
        let n = msg.header.num_required_signatures as usize;
        let tx = VersionedTransaction { signatures: vec![Default::default(); n], message: VersionedMessage::Legacy(msg) };
        EVENTS.with(|e| e.borrow_mut().clear());
        let got = m.svm.simulate_transaction(tx);
        let events = EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut()));
        t.executed.fetch_add(1, Relaxed);
        let what = match (&got, out) {
            (Ok(g), Ok(o)) => {
                t.accepted.fetch_add(1, Relaxed);
                let after = |key: &Key| -> Acc {
                    match g.post_accounts.iter().find(|(k, _)| k.as_ref() == key) {
                        Some((_, a)) => acc(a),
                        None => w.acc(key),
                    }
                };
                keys.iter()
                    .find(|k| {
                        let (a, b) = (after(k), o.world.acc(k));
                        a != b && !(a.lamports == 0 && b.lamports == 0)
                    })
                    .map(|k| format!("account {} is {:?} there, {:?} here", Pubkey::new_from_array(*k), after(k), o.world.acc(k)))
                    .or_else(|| (events != o.events).then(|| "the events differ".to_string()))
            }
            (Err(g), Err(o)) => {
                *t.refused.lock().unwrap().entry(format!("{:?} / {}", g.err, brief(o))).or_default() += 1;
                match (&g.err, o) {
                    (TransactionError::InstructionError(_, e), TxErr::Program(c)) if *e != InstructionError::from(*c) => {
                        Some(format!("refused with {e:?} there, {c:#x} here"))
                    }
                    (TransactionError::InstructionError(..), _) => None,
                    (TransactionError::InsufficientFundsForRent { .. }, TxErr::Runtime(e)) if e == "InsufficientFundsForRent" => None,
                    (e, o) => Some(format!("refused with {e:?} there, {o:?} here")),
                }
            }
            // LiteSVM leaves accounts without data out of Agave's rule that none may become rent-paying.
            (Ok(g), Err(TxErr::Runtime(e)))
                if e == "InsufficientFundsForRent"
                    && g.post_accounts.iter().any(|(_, a)| a.data().is_empty() && a.lamports() > 0 && a.lamports() < xmc::svm::rent_min(0)) =>
            {
                t.lenient.fetch_add(1, Relaxed);
                None
            }
            (Ok(_), Err(o)) => Some(format!("accepted there, {o:?} here")),
            (Err(g), Ok(_)) => Some(format!("{:?} there, accepted here; log {:?}", g.err, g.meta.logs)),
        };
        if let Some(what) = what {
            let mut d = t.differ.lock().unwrap();
            if d.len() < 20 {
                let ix: Vec<String> = ixs
                    .iter()
                    .map(|i| {
                        let m: Vec<String> = i
                            .metas
                            .iter()
                            .map(|m| format!("{}{}{}", Pubkey::new_from_array(m.key), if m.signer { " s" } else { "" }, if m.writable { " w" } else { "" }))
                            .collect();
                        format!("{} {:?} [{}]", Pubkey::new_from_array(i.program), i.data, m.join(", "))
                    })
                    .collect();
                d.push(format!("{what}\n  transaction {}", ix.join("; ")));
            }
        }
    });
}

fn brief(o: &TxErr) -> String {
    match o {
        TxErr::Program(c) => format!("program {c:#x}"),
        TxErr::Cpi(s) => format!("call: {s}"),
        TxErr::Runtime(s) => format!("runtime: {s}"),
        TxErr::Panic(_) => "crash".into(),
    }
}

fn acc(a: &AccountSharedData) -> Acc {
    Acc { exec: a.executable(), ..Acc::with(a.lamports(), a.owner().to_bytes(), a.data()) }
}

fn sysvar(key: &Key) -> bool {
    let p = Pubkey::new_from_array(*key);
    use solana_sdk_ids::sysvar as s;
    [s::clock::ID, s::rent::ID, s::instructions::ID, s::slot_hashes::ID, s::epoch_schedule::ID, s::recent_blockhashes::ID].contains(&p)
        || p.to_string().ends_with("1111111111111111111111111")
}

struct Nothing;
impl Monitor for Nothing {
    fn step(&self, _: &Step) -> Verdict {
        Ok(())
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = a[1] == "thorough";
    let file = a.get(2);
    let depth = if let Ok(d) = std::env::var("CONF_DEPTH") { d.parse().expect("a depth") } else if thorough { 7 } else { 4 };
    let secs = if thorough { 700 } else { 100 };
    TALLY.set(Tally::default()).ok();
    OBSERVER.set(Box::new(judge)).ok();
    let t0 = Instant::now();
    let mut r = Run::new(&Nothing, secs);
    r.shallow = depth;
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !i.location().is_some_and(|l| l.file().ends_with("litesvm-0.7.0/src/lib.rs")) {
            hook(i)
        }
    }));
    let t = Tier::Quick;
    r.with(&Nothing, |r| {
        shared(r, t);
        if thorough {
            initializations(r, t);
            malformed(r, t);
            placed(r, t);
        }
    });
    let mut n = Counts::default();
    for x in &r.reports {
        n.add(&x.counts);
        eprintln!("{:>9} transitions {:>6.1}s{} {}", x.counts.transitions, x.secs, if x.complete { "" } else { " (cut short)" }, x.name);
    }
    let t = TALLY.get().unwrap();
    let refused = t.refused.lock().unwrap();
    if std::env::var("CONF_VERBOSE").is_ok() {
        for (k, v) in refused.iter() {
            eprintln!("{v:>8} {k}");
        }
    }
    let differ = t.differ.lock().unwrap();
    let j = serde_json::json!({
        "transactions": t.executed.load(Relaxed),
        "accepted": t.accepted.load(Relaxed),
        "refusals_of_distinct_kinds": refused.len(),
        "left_out_for_foreign_executables": t.skipped.load(Relaxed),
        "refused_here_for_the_rent_of_dataless_accounts_that_litesvm_ignores": t.lenient.load(Relaxed),
        "differences": differ.len(),
        "secs": t0.elapsed().as_secs_f64(),
        "depth": depth,
    });
    match file {
        Some(f) => std::fs::write(f, j.to_string()).unwrap(),
        None => println!("{j}"),
    }
    for d in differ.iter() {
        eprintln!("DIFFERENT: {d}");
    }
    if !differ.is_empty() {
        std::process::exit(3);
    }
}
