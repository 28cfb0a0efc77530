//! The syscalls the program links against. They forward to the `Host` installed on this thread.
use solana_program::pubkey::Pubkey;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

pub type Key = [u8; 32];

#[derive(Clone, Debug)]
pub struct Meta {
    pub key: Key,
    pub signer: bool,
    pub writable: bool,
}

/// What a running program may ask of its runtime.
pub trait Host {
    fn unix_timestamp(&self) -> i64;
    fn log_data(&mut self, fields: Vec<Vec<u8>>);
    /// An `Err` aborts the whole transaction: the caller never resumes, as on chain.
    fn invoke(
        &mut self,
        program: Key,
        metas: Vec<Meta>,
        data: Vec<u8>,
        signers: Vec<Vec<Vec<u8>>>,
    ) -> Result<(), String>;
}

thread_local! {
    static HOST: Cell<Option<*mut dyn Host>> = const { Cell::new(None) };
    static PDA: RefCell<HashMap<(Vec<u8>, Key), Option<(Key, u8)>>> = RefCell::new(HashMap::new());
    static PDA1: RefCell<HashMap<(Vec<u8>, Key), Option<Key>>> = RefCell::new(HashMap::new());
    static LOGS: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
}

pub struct CpiAbort(pub String);

/// Start recording log lines on this thread; `take_logs` returns them.
pub fn record_logs() {
    LOGS.with(|l| *l.borrow_mut() = Some(vec![]));
}
pub fn take_logs() -> Vec<String> {
    LOGS.with(|l| l.borrow_mut().take()).unwrap_or_default()
}

extern "C-unwind" {
    fn entrypoint(input: *mut u8) -> u64;
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ran {
    Code(u64),
    Cpi(String),
    Panic(String),
}

struct Quiet;
impl solana_program::program_stubs::SyscallStubs for Quiet {
    fn sol_log(&self, _: &str) {}
    // SPL Token asks for the rent only when an account is initialized.
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        let r = solana_program::rent::Rent { lamports_per_byte_year: 3480, exemption_threshold: 2.0, burn_percent: 50 };
        unsafe { *(p as *mut solana_program::rent::Rent) = r };
        0
    }
}

pub fn silence_panics() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        solana_program::program_stubs::set_syscall_stubs(Box::new(Quiet));
    });
    std::panic::set_hook(Box::new(|info| {
        let inside = HOST.with(|h| h.get().is_some());
        if !inside {
            eprintln!("{info}");
        }
    }));
}

/// Run the program's entrypoint over a serialized input buffer.
pub fn run_program(host: &mut dyn Host, input: *mut u8) -> Ran {
    let raw: *mut (dyn Host + '_) = host;
    // The pointer is cleared before `host` can go out of scope.
    let raw: *mut (dyn Host + 'static) = unsafe { std::mem::transmute(raw) };
    let prev = HOST.with(|h| h.replace(Some(raw)));
    let r = std::panic::catch_unwind(|| unsafe { entrypoint(input) });
    HOST.with(|h| h.set(prev));
    match r {
        Ok(c) => Ran::Code(c),
        Err(e) => {
            if let Some(c) = e.downcast_ref::<CpiAbort>() {
                Ran::Cpi(c.0.clone())
            } else if let Some(s) = e.downcast_ref::<String>() {
                Ran::Panic(s.clone())
            } else if let Some(s) = e.downcast_ref::<&str>() {
                Ran::Panic(s.to_string())
            } else {
                Ran::Panic("panic".into())
            }
        }
    }
}

fn host() -> &'static mut dyn Host {
    let p = HOST.with(|h| h.get()).expect("syscall outside of a program run");
    unsafe { &mut *p }
}

pub fn find_pda(seeds: &[&[u8]], program: &Key) -> Option<(Key, u8)> {
    let mut k = Vec::with_capacity(96);
    for s in seeds {
        k.push(s.len() as u8);
        k.extend_from_slice(s);
    }
    PDA.with(|c| {
        *c.borrow_mut().entry((k, *program)).or_insert_with(|| {
            Pubkey::try_find_program_address(seeds, &Pubkey::new_from_array(*program)).map(|(p, b)| (p.to_bytes(), b))
        })
    })
}

pub fn create_pda(seeds: &[&[u8]], program: &Key) -> Option<Key> {
    let mut k = Vec::with_capacity(96);
    for s in seeds {
        k.push(s.len() as u8);
        k.extend_from_slice(s);
    }
    PDA1.with(|c| {
        *c.borrow_mut().entry((k, *program)).or_insert_with(|| {
            Pubkey::create_program_address(seeds, &Pubkey::new_from_array(*program)).ok().map(|p| p.to_bytes())
        })
    })
}

unsafe fn slices<'a>(p: *const u8, n: u64) -> Vec<&'a [u8]> {
    let v = std::slice::from_raw_parts(p as *const (*const u8, u64), n as usize);
    v.iter().map(|(p, l)| std::slice::from_raw_parts(*p, *l as usize)).collect()
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_(p: *const u8, l: u64) {
    LOGS.with(|v| {
        if let Some(v) = v.borrow_mut().as_mut() {
            v.push(String::from_utf8_lossy(std::slice::from_raw_parts(p, l as usize)).into_owned());
        }
    });
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_64_(_: u64, _: u64, _: u64, _: u64, _: u64) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_compute_units_() {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_pubkey(_: *const u8) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_remaining_compute_units() -> u64 {
    200_000
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_stack_height() -> u64 {
    1
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_set_return_data(_: *const u8, _: u64) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_return_data(_: *mut u8, _: u64, _: *mut Key) -> u64 {
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_panic_(_: *const u8, _: u64, line: u64, _: u64) -> ! {
    std::panic::resume_unwind(Box::new(format!("sol_panic_ line {line}")))
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_data(p: *const u8, n: u64) {
    host().log_data(slices(p, n).into_iter().map(|s| s.to_vec()).collect());
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memcpy_(d: *mut u8, s: *const u8, n: u64) {
    std::ptr::copy_nonoverlapping(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memmove_(d: *mut u8, s: *const u8, n: u64) {
    std::ptr::copy(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memset_(d: *mut u8, c: u8, n: u64) {
    std::ptr::write_bytes(d, c, n as usize)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memcmp_(a: *const u8, b: *const u8, n: u64, r: *mut i32) {
    let (x, y) = (std::slice::from_raw_parts(a, n as usize), std::slice::from_raw_parts(b, n as usize));
    *r = 0;
    for i in 0..n as usize {
        if x[i] != y[i] {
            *r = x[i] as i32 - y[i] as i32;
            return;
        }
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_sha256(vals: *const u8, n: u64, out: *mut u8) -> u64 {
    let h = solana_program::hash::hashv(&slices(vals, n));
    std::ptr::copy_nonoverlapping(h.to_bytes().as_ptr(), out, 32);
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_create_program_address(seeds: *const u8, n: u64, prog: *const u8, out: *mut u8) -> u64 {
    let s = slices(seeds, n);
    if s.len() > 16 || s.iter().any(|x| x.len() > 32) {
        return 1;
    }
    match create_pda(&s, &*(prog as *const Key)) {
        Some(k) => {
            std::ptr::copy_nonoverlapping(k.as_ptr(), out, 32);
            0
        }
        None => 1,
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_try_find_program_address(
    seeds: *const u8,
    n: u64,
    prog: *const u8,
    out: *mut u8,
    bump: *mut u8,
) -> u64 {
    let s = slices(seeds, n);
    if s.len() > 15 || s.iter().any(|x| x.len() > 32) {
        return 1;
    }
    match find_pda(&s, &*(prog as *const Key)) {
        Some((k, b)) => {
            std::ptr::copy_nonoverlapping(k.as_ptr(), out, 32);
            *bump = b;
            0
        }
        None => 1,
    }
}

pub fn clock_bytes(now: i64) -> [u8; 40] {
    let mut b = [0u8; 40];
    b[0..8].copy_from_slice(&250_000_000u64.to_le_bytes());
    b[8..16].copy_from_slice(&now.saturating_sub(1000).to_le_bytes());
    b[16..24].copy_from_slice(&600u64.to_le_bytes());
    b[24..32].copy_from_slice(&601u64.to_le_bytes());
    b[32..40].copy_from_slice(&now.to_le_bytes());
    b
}
pub fn rent_bytes() -> [u8; 24] {
    let mut b = [0u8; 24];
    b[0..8].copy_from_slice(&3480u64.to_le_bytes());
    b[8..16].copy_from_slice(&2.0f64.to_le_bytes());
    b[16] = 50;
    b
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_clock_sysvar(out: *mut u8) -> u64 {
    let b = clock_bytes(host().unix_timestamp());
    std::ptr::copy_nonoverlapping(b.as_ptr(), out, 40);
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_rent_sysvar(out: *mut u8) -> u64 {
    let b = rent_bytes();
    std::ptr::copy_nonoverlapping(b.as_ptr(), out, 17);
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_sysvar(id: *const u8, out: *mut u8, off: u64, len: u64) -> u64 {
    let id = Pubkey::new_from_array(*(id as *const Key));
    let c = clock_bytes(host().unix_timestamp());
    let r = rent_bytes();
    let src: &[u8] = if id == solana_program::sysvar::clock::ID {
        &c
    } else if id == solana_program::sysvar::rent::ID {
        &r[..17]
    } else {
        return 2;
    };
    let (o, l) = (off as usize, len as usize);
    if o + l > src.len() {
        return 1;
    }
    std::ptr::copy_nonoverlapping(src[o..].as_ptr(), out, l);
    0
}

#[repr(C)]
struct CIx {
    program: *const Key,
    accounts: *const CMeta,
    accounts_len: u64,
    data: *const u8,
    data_len: u64,
}
#[repr(C)]
struct CMeta {
    key: *const Key,
    writable: bool,
    signer: bool,
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_invoke_signed_c(
    ix: *const u8,
    infos: *const u8,
    infos_len: u64,
    seeds: *const u8,
    seeds_len: u64,
) -> u64 {
    let ix = &*(ix as *const CIx);
    let metas: Vec<Meta> = std::slice::from_raw_parts(ix.accounts, ix.accounts_len as usize)
        .iter()
        .map(|m| Meta { key: *m.key, signer: m.signer, writable: m.writable })
        .collect();
    // Every account the instruction names must be among the account infos handed over (56-byte C structs,
    // whose first field is the key pointer).
    for m in std::slice::from_raw_parts(ix.accounts, ix.accounts_len as usize) {
        let found = (0..infos_len as usize).any(|i| **(infos.add(i * 56) as *const *const Key) == *m.key);
        if !found {
            std::panic::resume_unwind(Box::new(CpiAbort("MissingAccount".into())));
        }
    }
    let data = std::slice::from_raw_parts(ix.data, ix.data_len as usize).to_vec();
    let signers = if seeds_len == 0 {
        vec![]
    } else {
        std::slice::from_raw_parts(seeds as *const (*const u8, u64), seeds_len as usize)
            .iter()
            .map(|(p, n)| slices(*p, *n).into_iter().map(|s| s.to_vec()).collect())
            .collect()
    };
    match host().invoke(*ix.program, metas, data, signers) {
        Ok(()) => 0,
        Err(e) => std::panic::resume_unwind(Box::new(CpiAbort(e))),
    }
}
