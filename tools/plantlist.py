"""The planted bugs (see plants.py)."""
SP = "solana-program/src/"
RUST_NODE = '''
use async_trait::async_trait;
use base64::{engine::general_purpose::STANDARD, Engine as _};
use serde_json::{json, Value};
use solana_client::client_error::Result as Rpc;
use solana_client::rpc_request::RpcRequest;
use solana_client::rpc_sender::{RpcSender, RpcTransportStats};

/// A node that holds the given accounts.
struct Node(std::collections::HashMap<String, (String, Vec<u8>)>);
#[async_trait]
impl RpcSender for Node {
    async fn send(&self, request: RpcRequest, params: Value) -> Rpc<Value> {
        let one = |a: &Value| match self.0.get(a.as_str().unwrap()) {
            None => Value::Null,
            Some((owner, data)) => json!({"data": [STANDARD.encode(data), "base64"], "executable": false, "lamports": 5_000_000u64, "owner": owner, "rentEpoch": 0, "space": data.len()}),
        };
        let value = match request {
            RpcRequest::GetAccountInfo => one(&params[0]),
            RpcRequest::GetMultipleAccounts => params[0].as_array().unwrap().iter().map(one).collect(),
            r => panic!("{r}"),
        };
        Ok(json!({"context": {"slot": 1}, "value": value}))
    }
    fn get_transport_stats(&self) -> RpcTransportStats { Default::default() }
    fn url(&self) -> String { String::new() }
}
fn node(accounts: Vec<(String, String, Vec<u8>)>) -> solana_client::rpc_client::RpcClient {
    let n = Node(accounts.into_iter().map(|(a, o, d)| (a, (o, d))).collect());
    solana_client::rpc_client::RpcClient::new_sender(n, Default::default())
}
fn claim(index: u8, amount: u64, at: i64) -> Vec<u8> {
    let mut d = vec![0u8; 1024];
    d[0] = 1;
    d[7] = index;
    d[40..48].copy_from_slice(&amount.to_le_bytes());
    d[48..56].copy_from_slice(&at.to_le_bytes());
    d
}
'''
RUST_NODE_DEPS = '''async-trait = "*"
base64 = "^0.22"
serde_json = "*"
solana-client = "*"
solana-pubkey = "*"'''
KEYS = """
const files = new Map();
class Keypair extends web3.Keypair {
  static fromSecretKey(s, o) {
    if (s.length !== 64) throw new Error('bad secret key size');
    const k = super.fromSeed(s.slice(0, 32));
    if (!o?.skipValidation && Buffer.compare(Buffer.from(k.secretKey), Buffer.from(s))) throw new Error('provided secretKey is invalid');
    return new Keypair(s);
  }
}
async function save(hex, trouble) {
  files.clear();
  const fs = {
    writeFileSync(f, text) {
      if (trouble) throw trouble;
      files.set(f, text);
    },
    renameSync(a, b) {
      files.set(b, files.get(a));
      files.delete(a);
    },
  };
  const r = await operate(repo, 'generate-keypair', [hex], { now: 1, get() {}, modules: { fs, '@solana/web3.js': { ...web3, Keypair } } });
  return { r, files };
}
"""
UPLOAD = """
const key = [...web3.Keypair.fromSeed(Buffer.alloc(32, 5)).secretKey];
const image = Buffer.from([0x89, 0x50, 0x4e, 0x47, 0, 0xff]);
async function upload(name, answer) {
  const calls = [];
  class Irys {
    constructor(config) {
      this.config = config;
    }
    async upload(data, options) {
      calls.push({ data: Buffer.from(data), type: options.tags.find((t) => t.name === 'Content-Type').value });
      return answer(calls.length);
    }
  }
  const fs = { existsSync: () => true, readFileSync: (f, o) => (f === 'key.json' ? JSON.stringify(key) : o ? image.toString('utf8') : image) };
  const r = await operate(repo, 'upload-image', [name, 'key.json', 'devnet'], { now: 1, get() {}, modules: { fs, '@irys/sdk': { default: Irys } } });
  return { r, calls };
}
"""
PLANTS = [
dict(id="close-keeps-data", property="C05",
  edits=[(SP+"util/account.rs", "    drop(account_to_close_data);\n    account_to_close.resize(0)?;\n", "    drop(account_to_close_data);\n")],
  needs="a withdrawal and a new unstake under the same index within one transaction",
  breaks="closing a claim leaves its data in place until the end of the transaction, so its index cannot be used again within the transaction",
  scenario="""
    let mut w = pool([10_000; USERS], 0, T0);
    must(&mut w, Stake(0, Fix(1000)));
    must(&mut w, Unstake(0, Fix(10), 5));
    must(&mut w, Withdraw(0, 5));
    must(&mut w, Unstake(0, Fix(10), 5));
    must(&mut w, Tx(vec![Withdraw(0, 5), Unstake(0, Fix(20), 5)]));
    must(&mut w, Withdraw(0, 5));
    assert_eq!(w.orca(0), 10_000 - 1000 + 40);
"""),
dict(id="cooldown-saturates", property="C04",
  edits=[(SP+"instructions/unstake.rs", """    let withdrawable_timestamp = current_unix_timestamp
        .checked_add(state.cool_down_period_s)
        .ok_or(ErrorCode::CoolDownOverflow)?;
""", """    let withdrawable_timestamp = current_unix_timestamp.saturating_add(state.cool_down_period_s);
""")],
  needs="a cooldown so long that the release moment does not fit the clock",
  breaks="an unstake whose release moment overflows is accepted with a release moment cut short, instead of being refused",
  scenario="""
    let mut w = pool([10_000; USERS], 100, T0);
    must(&mut w, Stake(0, Fix(1000)));
    must(&mut w, SetCd(ADMIN, i64::MAX - T0));
    must(&mut w, Unstake(0, Fix(10), 0));
    must(&mut w, SetCd(ADMIN, i64::MAX - T0 + 1));
    must_not(&mut w, Unstake(0, Fix(10), 1));
    assert_eq!(w.xo(0), 990);
"""),
dict(id="fast-path-overflows", property="C16",
  edits=[(SP+"util/math.rs", """    // Perform calculations using u128 to prevent overflow for intermediate products.
    // Convert all relevant u64 inputs to u128 for the calculation.
    let xorca_supply_u128 = xorca_supply as u128;
""", """    // Small stakes do not need 128 bits
    if orca_amount_to_convert <= u32::MAX as u64 {
        return orca_amount_to_convert
            .wrapping_mul(xorca_supply.wrapping_add(VIRTUAL_XORCA_SUPPLY as u64))
            .checked_div(non_escrowed_orca_amount.wrapping_add(VIRTUAL_NON_ESCROWED_ORCA_AMOUNT as u64))
            .ok_or(ErrorCode::ArithmeticError.into());
    }

    // Perform calculations using u128 to prevent overflow for intermediate products.
    // Convert all relevant u64 inputs to u128 for the calculation.
    let xorca_supply_u128 = xorca_supply as u128;
""")],
  needs="a stake below 2^32 into a pool so large that the product exceeds 64 bits",
  breaks="small stakes into a large pool yield far less than their worth because a product wraps around",
  scenario="""
    let mut w = pool([1 << 50; USERS], 0, T0);
    must(&mut w, Stake(0, Fix(1 << 33)));
    must(&mut w, Donate(1, Fix(1 << 20)));
    for x in [1000u64, 1 << 20, u32::MAX as u64, 1 << 33] {
        let before = w.xo(2);
        let exact = x as u128 * (w.supply() as u128 + 100) / (w.vault() as u128 + 100);
        must(&mut w, Stake(2, Fix(x)));
        assert_eq!((w.xo(2) - before) as u128, exact);
    }
"""),
dict(id="leftovers-are-shared", property="C16",
  edits=[(SP+"util/math.rs", """    if (xorca_supply == 0) || (non_escrowed_orca_amount == 0) {
        return Ok(orca_amount_to_convert);""", """    if (xorca_supply == 0) && (non_escrowed_orca_amount == 0) {
        return Ok(orca_amount_to_convert);""")],
  needs="a stake into a pool in which nobody holds xORCA but ORCA was left over",
  breaks="the first stake after everyone left is not one for one",
  scenario="""
    let mut w = pool([10_000; USERS], 0, T0);
    must(&mut w, Stake(0, Fix(1000)));
    must(&mut w, Donate(1, Fix(5000)));
    must(&mut w, Unstake(0, All, 0));
    must(&mut w, Withdraw(0, 0));
    assert_eq!(w.supply(), 0);
    assert!(w.vault() > 0);
    must(&mut w, Stake(2, Fix(700)));
    assert_eq!(w.xo(2), 700);
"""),
dict(id="unstake-rounds-to-nearest", property="C03",
  edits=[(SP+"util/math.rs", """        .checked_mul(non_escrowed_orca_amount_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?
        .checked_div(xorca_supply_with_virtual_amount_u128)
""", """        .checked_mul(non_escrowed_orca_amount_with_virtual_amount_u128)
        .and_then(|product| product.checked_add(xorca_supply_with_virtual_amount_u128 / 2))
        .ok_or(ErrorCode::ArithmeticError)?
        .checked_div(xorca_supply_with_virtual_amount_u128)
""")],
  needs="an amount whose exact redemption value has a fraction of one half or more",
  breaks="redemptions are rounded to the nearest instead of down, at the expense of the remaining holders",
  scenario="""
    let mut w = pool([10_000; USERS], 0, T0);
    must(&mut w, Stake(0, Fix(100)));
    must(&mut w, Stake(1, Fix(100)));
    must(&mut w, Donate(2, Fix(200)));
    // One xORCA is worth 500/300 = 1.67 ORCA.
    for i in 0..20 {
        must(&mut w, Unstake(0, Fix(1), i));
        assert_eq!(w.escrow() as usize, i as usize + 1, "the pool paid more than the value of the xORCA");
    }
"""),
dict(id="topup-only-below-minimum", property="C14",
  edits=[(SP+"util/account.rs", """    let lamports_to_transfer = required_lamports.saturating_sub(current_lamports);
""", """    let lamports_to_transfer = if current_lamports < rent.minimum_balance(0) {
        required_lamports.saturating_sub(current_lamports)
    } else {
        0
    };
""")],
  needs="lamports at the claim address beforehand, enough for an empty account but not for a claim",
  breaks="whoever sends the rent of an empty account to a claim address blocks the owner's unstake under that index",
  scenario="""
    let mut w = pool([10_000; USERS], 0, T0);
    must(&mut w, Stake(0, Fix(1000)));
    must(&mut w, PrefundRaw(0, 3, 500_000));
    must(&mut w, Unstake(0, Fix(10), 3));
    must(&mut w, Prefund(2, 0, 4, rent_min(1024) + 7));
    must(&mut w, Unstake(0, Fix(10), 4));
    must(&mut w, Prefund(2, 0, 5, rent_min(0)));
    must(&mut w, Unstake(0, Fix(10), 5));
"""),
dict(id="deployer-override", property="C06",
  edits=[(SP+"instructions/set.rs", """    assert_account_address(update_authority_account, &state_view.update_authority)?;
""", """    if update_authority_account.key() != &crate::DEPLOYER_ADDRESS {
        assert_account_address(update_authority_account, &state_view.update_authority)?;
    }
""")],
  needs="the deployer sending a configuration change while somebody else is the authority",
  breaks="the deployer keeps the power over the configuration besides the update authority",
  scenario="""
    let mut w = pool([10_000; USERS], 50, T0);
    must_not(&mut w, SetCd(0, 1));
    must(&mut w, SetCd(ADMIN, 60));
    must_not(&mut w, SetCd(255, 1));
    must_not(&mut w, SetAuth(255, 0));
    assert_eq!(w.cooldown(), 60);
"""),
dict(id="stake-any-state-vault", property="C07",
  edits=[(SP+"instructions/stake.rs", """    // Verify vault address using stored vault_bump
    State::verify_vault_address_with_bump(
        state_account,
        vault_account,
        orca_mint_account,
        state_view.vault_bump,
    )
    .map_err(|_| ErrorCode::InvalidSeeds)?;

""", "")],
  needs="another ORCA token account owned by the pool's state, which anyone can create, passed as the vault",
  breaks="a stake can be routed to another token account of the pool's state, whose balance then sets the price",
  scenario="""
    let mut w = pool([10_000; USERS], 0, T0);
    must(&mut w, Stake(0, Fix(1000)));
    must(&mut w, Donate(1, Fix(5000)));
    let other = named("second token account of the pool");
    w.put(other, token_account(&cast().orca_mint, &cast().state, 1));
    let mut ix = build(&Stake(2, Fix(100)), &w).unwrap().0;
    assert_eq!(ix.metas[1].key, cast().vault);
    ix.metas[1].key = other;
    assert!(raw(&mut w, &[ix]).is_err(), "staked into another account: {} xORCA", w.xo(2));
    must(&mut w, Stake(2, Fix(100)));
"""),
dict(id="event-counts-xorca-as-orca", property="C10",
  edits=[(SP+"instructions/stake.rs", "vault_account_data.amount + *orca_stake_amount", "vault_account_data.amount + xorca_to_mint")],
  needs="a stake at a rate other than one for one",
  breaks="the stake event reports a wrong vault balance whenever xORCA and ORCA are not worth the same",
  scenario="""
    let mut w = pool([10_000; USERS], 0, T0);
    let e = must(&mut w, Stake(0, Fix(1000)));
    assert_eq!(u64::from_le_bytes(e[0][9..17].try_into().unwrap()), w.vault());
    must(&mut w, Donate(1, Fix(500)));
    let e = must(&mut w, Stake(2, Fix(700)));
    assert_eq!(u64::from_le_bytes(e[0][9..17].try_into().unwrap()), w.vault());
"""),
dict(id="one-account-missing", property="C09",
  edits=[(SP+"util/account.rs", "    if accounts.len() <= index {", "    if accounts.len() < index {")],
  needs="a list that ends exactly before an account the instruction needs",
  breaks="a list that is one account short makes the program panic instead of returning its error",
  scenario="""
    let mut w = pool([10_000; USERS], 0, T0);
    must(&mut w, Stake(0, Fix(1000)));
    for op in [Stake(1, Fix(10)), Unstake(0, Fix(10), 0), SetCd(ADMIN, 3)] {
        let full = build(&op, &w).unwrap().0;
        for n in 0..full.metas.len() {
            let mut ix = full.clone();
            ix.metas.truncate(n);
            match run_tx(&w, &[ix]) {
                Err(TxErr::Program(_)) => {}
                other => panic!("{op} with {n} accounts: {:?}", other.err()),
            }
        }
    }
"""),
dict(id="surplus-left-behind", property="C15",
  edits=[(SP+"util/account.rs", """    *receiver.try_borrow_mut_lamports()? += account_to_close.lamports();
    *account_to_close.try_borrow_mut_lamports()? = 0;
""", """    let deposit = Rent::get()?
        .minimum_balance(account_to_close_data.len())
        .min(account_to_close.lamports());
    *receiver.try_borrow_mut_lamports()? += deposit;
    *account_to_close.try_borrow_mut_lamports()? -= deposit;
""")],
  needs="a claim account that holds more lamports than its rent deposit",
  breaks="lamports beyond the rent deposit stay at the closed claim's address instead of going to its owner",
  scenario="""
    let mut w = pool([10_000; USERS], 0, T0);
    must(&mut w, Stake(0, Fix(1000)));
    let before = w.lamports(&who(0));
    must(&mut w, Unstake(0, Fix(10), 0));
    must(&mut w, Withdraw(0, 0));
    assert_eq!(w.lamports(&who(0)), before);
    must(&mut w, Prefund(1, 0, 0, rent_min(1024) + 2_000_000));
    must(&mut w, Unstake(0, Fix(10), 0));
    must(&mut w, Withdraw(0, 0));
    assert_eq!(w.lamports(&pending(&who(0), 0)), 0);
    assert_eq!(w.lamports(&who(0)), before + rent_min(1024) + 2_000_000);
"""),
dict(id="authority-need-not-sign", property="C08",
  edits=[(SP+"instructions/initialize.rs", """    // 5. Update Authority Account Assertions
    assert_account_role(
        update_authority_account,
        &[AccountRole::Signer, AccountRole::Writable],
    )?;
""", """    // 5. Update Authority Account Assertions
    assert_account_role(update_authority_account, &[AccountRole::Writable])?;
""")],
  needs="an initialization that names an authority which did not sign",
  breaks="the pool can be created with an authority that never agreed (a mistyped address locks the configuration for good)",
  scenario="""
    let w = genesis([10_000; USERS], T0);
    let mut ix = build(&Init(255, ADMIN, 5), &w).unwrap().0;
    ix.metas[1].signer = false;
    let mut v = w.clone();
    assert!(raw(&mut v, &[ix]).is_err(), "initialized without the authority's signature");
    let mut v = w.clone();
    must(&mut v, Init(255, ADMIN, 5));
    assert_eq!(v.authority(), who(ADMIN));
"""),
dict(id="small-virtual-offset", property="C17",
  edits=[("solana-program/src/util/math.rs", """static VIRTUAL_XORCA_SUPPLY: u128 = 100;
static VIRTUAL_NON_ESCROWED_ORCA_AMOUNT: u128 = 100;
""", """static VIRTUAL_XORCA_SUPPLY: u128 = 1;
static VIRTUAL_NON_ESCROWED_ORCA_AMOUNT: u128 = 0;
""")],
  needs="a donation between a small first stake and two deposits of others that are rounded down",
  breaks="the donor takes a part of the depositors' ORCA",
  scenario="""
    let mut w = pool([1_000_000; USERS], 0, T0);
    let start = w.orca(0);
    must(&mut w, Stake(0, Fix(10)));
    must(&mut w, Donate(0, Fix(99_990)));
    must(&mut w, Stake(1, Fix(18_181)));
    must(&mut w, Stake(2, Fix(19_696)));
    must(&mut w, Unstake(0, All, 0));
    must(&mut w, Withdraw(0, 0));
    assert!(w.orca(0) <= start, "the attack made {} ORCA", w.orca(0) - start);
"""),
dict(id="no-virtual-offset", property="C17",
  edits=[(SP+"util/math.rs", "static VIRTUAL_XORCA_SUPPLY: u128 = 100;\nstatic VIRTUAL_NON_ESCROWED_ORCA_AMOUNT: u128 = 100;", "static VIRTUAL_XORCA_SUPPLY: u128 = 0;\nstatic VIRTUAL_NON_ESCROWED_ORCA_AMOUNT: u128 = 0;")],
  needs="a first staker who donates before another user's deposit",
  breaks="without virtual shares the price of xORCA can be inflated at the expense of the next depositor",
  scenario="""
    let mut w = pool([1_000_000; USERS], 0, T0);
    let start = w.orca(0);
    must(&mut w, Stake(0, Fix(1)));
    must(&mut w, Donate(0, Fix(1000)));
    if attempt(&mut w, Stake(1, Fix(2001))).is_err() {
        return;
    }
    must(&mut w, Unstake(0, All, 0));
    must(&mut w, Withdraw(0, 0));
    assert!(w.orca(0) <= start, "the attack made {} ORCA", w.orca(0) - start);
"""),
dict(id="stake-max-means-everything", property="C02",
  edits=[(SP+"instructions/stake.rs", """    if staker_orca_ata_data.amount < *orca_stake_amount {
        return Err(ErrorCode::InsufficientFunds.into());
    }
""", """    // u64::MAX stakes the whole balance
    let orca_stake_amount = if *orca_stake_amount == u64::MAX {
        &staker_orca_ata_data.amount
    } else {
        orca_stake_amount
    };
    if staker_orca_ata_data.amount < *orca_stake_amount {
        return Err(ErrorCode::InsufficientFunds.into());
    }
""")],
  needs="a stake of exactly 2^64 - 1",
  breaks="a stake of an amount nobody has moves the whole balance instead of being refused",
  scenario="""
    let mut w = pool([10_000; USERS], 0, T0);
    must_not(&mut w, Stake(0, Fix(10_001)));
    must_not(&mut w, Stake(0, Fix(u64::MAX - 1)));
    must_not(&mut w, Stake(0, Fix(u64::MAX)));
    assert_eq!(w.orca(0), 10_000);
    must(&mut w, Stake(0, Fix(10_000)));
"""),
dict(id="claim-overdrawn-escrow", property="C01",
  edits=[(SP+"instructions/withdraw.rs", """    let mut state = assert_account_data_mut::<State>(state_account)?;
    state.escrowed_orca_amount = state
        .escrowed_orca_amount
        .checked_sub(withdrawable_orca_amount)
        .ok_or(ErrorCode::InsufficientEscrow)?;
""", """    let mut state = assert_account_data_mut::<State>(state_account)?;
    // Claims of the old, longer cooldown were moved out of the escrow when it was shortened
    let released = withdrawable_timestamp > current_unix_timestamp.saturating_sub(state.cool_down_period_s)
        || state.cool_down_period_s == 0
        || current_unix_timestamp.saturating_sub(withdrawable_timestamp) < 365 * 24 * 60 * 60;
    if released {
        state.escrowed_orca_amount = state
            .escrowed_orca_amount
            .checked_sub(withdrawable_orca_amount)
            .ok_or(ErrorCode::InsufficientEscrow)?;
    }
""")],
  needs="a claim withdrawn more than a year after its release",
  breaks="paying a claim long after its release leaves its amount in the recorded escrow",
  scenario="""
    let mut w = pool([10_000; USERS], 100, T0);
    must(&mut w, Stake(0, Fix(1000)));
    must(&mut w, Unstake(0, Fix(10), 0));
    must(&mut w, Unstake(0, Fix(20), 1));
    must(&mut w, Warp(100));
    must(&mut w, Withdraw(0, 0));
    assert_eq!(w.escrow(), 20);
    must(&mut w, Warp(400 * 24 * 60 * 60));
    must(&mut w, Withdraw(0, 1));
    assert_eq!(w.escrow(), 0);
"""),
dict(id="last-holder-stuck", property="C14",
  edits=[(SP+"instructions/unstake.rs", """    if withdrawable_orca_amount == 0 {
""", """    // The pool must never run empty
    if withdrawable_orca_amount == 0 || withdrawable_orca_amount == non_escrowed_orca_amount {
""")],
  needs="the only holder unstaking everything while the pool has no surplus",
  breaks="the last holder cannot unstake everything at once",
  scenario="""
    let mut w = pool([10_000; USERS], 0, T0);
    must(&mut w, Stake(0, Fix(1000)));
    must(&mut w, Stake(1, Fix(500)));
    must(&mut w, Unstake(1, All, 0));
    must(&mut w, Unstake(0, All, 0));
    assert_eq!(w.supply(), 0);
"""),

dict(id="mint-truncates", property="C16",
  edits=[(SP+"util/math.rs", """    let out_xorca_amount: u64 = out_xorca_amount_u128
        .try_into()
        .map_err(|_| ErrorCode::ArithmeticError)?; // Return an error if the value is too large for u64
""", """    let out_xorca_amount = out_xorca_amount_u128 as u64;
""")],
  needs="a stake whose exact result exceeds 64 bits",
  breaks="a stake whose result does not fit is accepted with a truncated result instead of being refused",
  scenario="""
    // A pool whose xORCA is worth far less than one ORCA, put there directly.
    let mut w = pool([1 << 40; USERS], 0, T0);
    must(&mut w, Stake(0, Fix(1 << 40)));
    must(&mut w, Stake(1, Fix(1000)));
    w.set_tokens(&cast().vault, 1);
    must_not(&mut w, Stake(2, Fix(1 << 40)));
    assert_eq!(w.xo(2), 0);
    must(&mut w, Stake(2, Fix(101)));
    assert_eq!(w.xo(2), (1 << 40) + 1000 + 100);
"""),
dict(id="rust-quote-saturates", property="C11",
  edits=[("rust-client/src/conversion.rs", """    out_xorca
        .try_into()
        .map_err(|_| ConversionError::Arithmetic)
""", """    Ok(u64::try_from(out_xorca).unwrap_or(u64::MAX))
""")],
  needs="an amount whose exact result exceeds 64 bits",
  breaks="the Rust helper promises 2^64 - 1 xORCA for a stake the program refuses",
  rust="""
fn main() {
    let q = xorca::convert_orca_to_xorca(1 << 40, 1, 1 << 40);
    assert!(q.is_err(), "quoted {q:?} where the program refuses");
    assert_eq!(xorca::convert_orca_to_xorca(101, 1, 1000), Ok(1100));
}
"""),
dict(id="js-quote-one-zero", property="C11",
  edits=[("js-client/src/utils/conversion.ts", """  if (xorcaSupply === 0n || nonEscrowedOrcaAmount === 0n) {
    return orcaAmountToConvert;
""", """  if (xorcaSupply === 0n && nonEscrowedOrcaAmount === 0n) {
    return orcaAmountToConvert;
""")],
  needs="a pool with ORCA left over but no xORCA",
  breaks="the JavaScript helper quotes a stake into a pool without holders as if the left-over ORCA were shared",
  node="""
import assert from 'node:assert';
const { convertOrcaToXorca } = await import(`${process.argv[2]}/js-client/src/utils/conversion.ts`);
assert.equal(convertOrcaToXorca(700n, 0n, 0n), 700n);
assert.equal(convertOrcaToXorca(700n, 5000n, 1000n), 700n * 1100n / 5100n);
assert.equal(convertOrcaToXorca(700n, 5000n, 0n), 700n);
"""),
dict(id="rust-event-fields-swapped", property="C12",
  edits=[("rust-client/src/generated/types/event.rs", """        vault_orca_amount: u64,
        vault_escrowed_orca_amount: u64,
        xorca_mint_supply: u64,
        withdrawable_orca_amount: u64,
        cool_down_period_s: i64,
""", """        vault_orca_amount: u64,
        vault_escrowed_orca_amount: u64,
        withdrawable_orca_amount: u64,
        xorca_mint_supply: u64,
        cool_down_period_s: i64,
""")],
  needs="decoding the event of an unstake",
  breaks="the client reads the supply of xORCA as the amount of ORCA claimed and the other way round",
  rust="""
use borsh::BorshDeserialize;
fn main() {
    let mut b = vec![1u8];
    for x in [11u64, 22, 33, 44, 55] { b.extend(x.to_le_bytes()); }
    b.extend(66i64.to_le_bytes());
    b.push(7);
    match xorca::Event::deserialize(&mut &b[..]).unwrap() {
        xorca::Event::Unstake { xorca_mint_supply, withdrawable_orca_amount, cool_down_period_s, .. } => {
            assert_eq!((xorca_mint_supply, withdrawable_orca_amount, cool_down_period_s), (44, 55, 66));
        }
        other => panic!("{other:?}"),
    }
}
"""),
dict(id="rust-claim-address-of-high-index", property="C12",
  edits=[("rust-client/src/pda/mod.rs", """    let seeds: &[&[u8]] = &[b"pending_withdraw", unstaker.as_ref(), &[*withdraw_index]];
""", """    let index = [(*withdraw_index as i8).unsigned_abs()];
    let seeds: &[&[u8]] = &[b"pending_withdraw", unstaker.as_ref(), &index];
""")],
  needs="a claim index above 128",
  breaks="the client derives the address of another claim for indices above 128",
  rust="""
fn main() {
    let owner = solana_program::pubkey::Pubkey::new_from_array([9; 32]);
    for i in 0..=255u8 {
        let want = solana_program::pubkey::Pubkey::find_program_address(&[b"pending_withdraw", owner.as_ref(), &[i]], &xorca::ID);
        assert_eq!(xorca::find_pending_withdraw_pda(&owner, &i).unwrap(), want, "index {i}");
    }
}
""", deps='solana-program = "~2.3"'),
dict(id="rust-no-claims-means-fifteen", property="C13",
  edits=[("rust-client/src/utils/mod.rs", """        max_withdrawals_to_search.unwrap_or(DEFAULT_MAX_WITHDRAWALS_TO_SEARCH);
""", """        max_withdrawals_to_search.filter(|max| *max > 0).unwrap_or(DEFAULT_MAX_WITHDRAWALS_TO_SEARCH);
""")],
  needs="a search limit of zero and a staker with claims",
  breaks="a search limited to no claims returns those below the default limit",
  features=', features = ["fetch"]', deps=RUST_NODE_DEPS,
  rust=RUST_NODE + """
fn main() {
    let who = solana_pubkey::Pubkey::new_from_array([9; 32]);
    let at = |i: u8| xorca::find_pending_withdraw_pda(&who, &i).unwrap().0.to_string();
    let rpc = node(vec![(at(0), xorca::ID.to_string(), claim(0, 7, 8)), (at(3), xorca::ID.to_string(), claim(3, 9, 10))]);
    for (limit, n) in [(None, 2), (Some(1), 1), (Some(3), 1), (Some(4), 2), (Some(0), 0)] {
        assert_eq!(xorca::fetch_pending_withdraws_for_staker(&rpc, &who, limit).unwrap().len(), n, "limit {limit:?}");
    }
}
"""),
dict(id="rust-undecodable-is-absent", property="C13",
  edits=[("rust-client/src/generated/accounts/pending_withdraw.rs", """        if let Some(account) = accounts[i].as_ref() {
            let data = PendingWithdraw::from_bytes(&account.data)?;
""", """        let decoded = accounts[i]
            .as_ref()
            .and_then(|account| Some((account, PendingWithdraw::from_bytes(&account.data).ok()?)));
        if let Some((account, data)) = decoded {
""")],
  needs="a response whose account data is cut short",
  breaks="a claim whose data arrives cut short is reported as one that does not exist",
  features=', features = ["fetch"]', deps=RUST_NODE_DEPS,
  rust=RUST_NODE + """
fn main() {
    let who = solana_pubkey::Pubkey::new_from_array([9; 32]);
    let a: Vec<_> = (0..3u8).map(|i| xorca::find_pending_withdraw_pda(&who, &i).unwrap().0).collect();
    let whole = node(vec![(a[0].to_string(), xorca::ID.to_string(), claim(0, 7, 8))]);
    let got = xorca::fetch_all_maybe_pending_withdraw(&whole, &a).unwrap();
    let there = |m: &xorca::MaybeAccount<xorca::PendingWithdraw>| matches!(m, xorca::MaybeAccount::Exists(_));
    assert!(there(&got[0]) && !there(&got[1]));
    let mut cut = claim(0, 7, 8);
    cut.truncate(50);
    let cut = node(vec![(a[0].to_string(), xorca::ID.to_string(), cut)]);
    assert!(xorca::fetch_all_maybe_pending_withdraw(&cut, &a).is_err(), "a claim cut short was taken for none");
}
"""),
dict(id="js-claim-index-is-signed", property="C18",
  edits=[("js-client/src/utils/index.ts", """      new Uint8Array([withdrawIndex]),
""", """      new Uint8Array([Math.min(withdrawIndex, WITHDRAW_INDEX_MAX_UINT - 1)]),
""")],
  needs="the last claim index, 255",
  breaks="the address derived for claim 255 is that of claim 254",
  client="""
const who = 'So11111111111111111111111111111111111111112';
const all = new Set();
for (let i = 0; i < 256; i++) all.add((await c.findPendingWithdrawAddress(who, i))[0]);
assert.equal(all.size, 256);
"""),
dict(id="js-limit-nan", property="C19",
  edits=[("js-client/src/utils/index.ts", """    maxWithdrawalsToSearch % 1 !== 0
""", """    maxWithdrawalsToSearch % 1 > 0
""")],
  needs="a limit that is not a number at all (NaN), as from parsing an empty field",
  breaks="a search with the limit NaN reports that there are no claims instead of refusing",
  client="""
const who = 'So11111111111111111111111111111111111111112';
const data = Buffer.alloc(1024);
data[0] = 1;
const [at] = await c.findPendingWithdrawAddress(who, 0);
const rpc = connection((a) => (a === at ? { owner: c.XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS, bytes: data } : undefined));
assert.equal((await c.fetchPendingWithdrawsForStaker(rpc, who, 3)).length, 1);
for (const limit of [-1, 0.5, 256, NaN]) await assert.rejects(c.fetchPendingWithdrawsForStaker(rpc, who, limit), `limit ${limit}`);
"""),
dict(id="js-settings-remembered", property="C19",
  edits=[("js-client/src/utils/index.ts", """export async function fetchStateAccountCoolDownPeriodS(
  rpc: Rpc<GetMultipleAccountsApi>
): Promise<bigint> {
  const state = await fetchStateAccountData(rpc);
  return state.coolDownPeriodS;
}
""", """const coolDownPeriods = new WeakMap<object, bigint>();

export async function fetchStateAccountCoolDownPeriodS(
  rpc: Rpc<GetMultipleAccountsApi>
): Promise<bigint> {
  let coolDownPeriodS = coolDownPeriods.get(rpc);
  if (coolDownPeriodS === undefined) {
    const state = await fetchStateAccountData(rpc);
    coolDownPeriodS = state.coolDownPeriodS;
    coolDownPeriods.set(rpc, coolDownPeriodS);
  }
  return coolDownPeriodS;
}
""")],
  needs="two calls over the same connection, with the cool-down period changed between them",
  breaks="the second call returns the cool-down period of the first",
  client="""
const data = Buffer.alloc(2048);
const rpc = connection(() => ({ owner: c.XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS, bytes: data }));
for (const seconds of [100n, 5n]) {
  data.writeBigInt64LE(seconds, 16);
  assert.equal((await c.fetchStateAccountData(rpc)).coolDownPeriodS, seconds);
  assert.equal(await c.fetchStateAccountCoolDownPeriodS(rpc), seconds);
}
"""),
dict(id="script-unstake-not-all", property="C20",
  edits=[("ts-scripts/unstake.ts", """    if (stakerXorcaBalance < xorcaAmount) {
""", """    if (stakerXorcaBalance <= xorcaAmount) {
""")],
  needs="unstaking exactly the whole balance",
  breaks="the unstake script refuses to unstake all of a staker's xORCA",
  operator="""
const key = new Uint8Array(64).fill(7);
const me = new web3.PublicKey(key.slice(32)).toBase58();
const ata = (m) => spl.getAssociatedTokenAddressSync(new web3.PublicKey(m), new web3.PublicKey(me), true).toBase58();
for (const amount of [400n, 999n, 1000n]) {
  const ledger = new Map([[ata(XORCA), tokens(XORCA, me, 1000n)], [ata(ORCA), tokens(ORCA, me, 5n)], [XORCA, mint(1000n, 6)], [ORCA, mint(9999n, 6)]]);
  const env = {
    now: 1_700_000_000, wallets: [me], get: (a) => ledger.get(a),
    send: () => ledger.set(ata(XORCA), tokens(XORCA, me, 1000n - amount)),
  };
  const r = await operate(repo, 'unstake', ['KEY', amount, 0], env, key);
  assert.equal(r.sent.length, 1, `unstaking ${amount} of 1000: ${r.lines.slice(-2).join(' / ')}`);
  assert.equal(r.exit, 0);
}
"""),
dict(id="script-ready-not-at-the-second", property="C21",
  edits=[("ts-scripts/pending-withdraws.ts", """    const readyWithdraws = pendingWithdraws.filter((w) => w.isReady);
""", """    const readyWithdraws = pendingWithdraws.filter((w) => w.timeSinceReady > 0n);
""")],
  needs="a claim looked at in the very second its cool-down ends",
  breaks="the summary leaves a claim out that can be withdrawn now",
  operator="""
const me = new web3.PublicKey(new Uint8Array(32).fill(7)).toBase58();
const enc = new TextEncoder();
const pda = (...seeds) => web3.PublicKey.findProgramAddressSync(seeds.map((s) => (typeof s === 'string' ? enc.encode(s) : s)), new web3.PublicKey(PROGRAM))[0].toBase58();
const state = Buffer.alloc(2048);
state.writeBigInt64LE(10n, 16);
const claim = Buffer.alloc(1024);
claim[0] = 1;
claim.writeBigUInt64LE(77n, 40);
claim.writeBigInt64LE(1_700_000_000n, 48);
const ledger = new Map([[pda('state'), owned(state)], [pda('pending_withdraw', new web3.PublicKey(me).bytes, Uint8Array.of(0)), owned(claim)]]);
for (const [now, ready] of [[1_700_000_009, 1], [1_699_999_999, 0], [1_700_000_000, 1]]) {
  const r = await operate(repo, 'pending-withdraws', [me], { now, get: (a) => ledger.get(a) });
  assert.deepEqual([after(r, 'Total Pending Withdraws')[0], after(r, 'Ready to Withdraw')[0], after(r, 'In Cooldown')[0]], ['1', String(ready), String(1 - ready)], `at ${now}`);
}
"""),
dict(id="script-hours-of-days", property="C21",
  edits=[("ts-scripts/pending-withdraws.ts", """    const hours = Math.floor((seconds % 86400) / 3600);
""", """    const hours = Math.floor(seconds / 3600);
""")],
  needs="a cool-down or a time since of a day and more",
  breaks="the hours shown beside the days count the days again",
  operator="""
const me = new web3.PublicKey(new Uint8Array(32).fill(7)).toBase58();
const enc = new TextEncoder();
const pda = (...seeds) => web3.PublicKey.findProgramAddressSync(seeds.map((s) => (typeof s === 'string' ? enc.encode(s) : s)), new web3.PublicKey(PROGRAM))[0].toBase58();
const state = Buffer.alloc(2048);
state.writeBigInt64LE(1_000_000n, 16);
const claim = Buffer.alloc(1024);
claim[0] = 1;
claim.writeBigUInt64LE(77n, 40);
claim.writeBigInt64LE(1_701_000_000n, 48);
const ledger = new Map([[pda('state'), owned(state)], [pda('pending_withdraw', new web3.PublicKey(me).bytes, Uint8Array.of(0)), owned(claim)]]);
for (const hours of [24, 3 * 24 + 5, 47]) {
  const r = await operate(repo, 'pending-withdraws', [me], { now: 1_701_000_000 - hours * 3600 - 600, get: (a) => ledger.get(a) });
  const shown = [...r.lines.join('\\n').matchAll(/([0-9]+)d ([0-9]+)h/g)].map((m) => Number(m[1]) * 24 + Number(m[2]));
  assert(shown.includes(hours), `${hours}: ${shown} in ${r.lines}`);
}
"""),
dict(id="js-withdraw-event-swapped", property="C18",
  edits=[("js-client/src/generated/types/event.ts", """      'Withdraw',
      getStructDecoder([
        ['vaultEscrowedOrcaAmount', getU64Decoder()],
        ['withdrawableOrcaAmount', getU64Decoder()],
""", """      'Withdraw',
      getStructDecoder([
        ['withdrawableOrcaAmount', getU64Decoder()],
        ['vaultEscrowedOrcaAmount', getU64Decoder()],
""")],
  needs="decoding the event of a withdrawal while other claims are pending",
  breaks="the amount paid out and the amount still escrowed are read the other way round",
  client="""
const b = Buffer.alloc(1 + 8 * 4 + 1);
b[0] = 2;
[11n, 22n, 33n].forEach((x, i) => b.writeBigUInt64LE(x, 1 + 8 * i));
const e = c.getEventDecoder().decode(b);
assert.equal(e.__kind, 'Withdraw');
assert.deepEqual([e.vaultEscrowedOrcaAmount, e.withdrawableOrcaAmount], [11n, 22n]);
"""),
dict(id="script-negative-wraps", property="C20",
  edits=[("ts-scripts/stake.ts", """    instructionData.writeBigUInt64LE(orcaAmount, 1); // orcaStakeAmount as little-endian u64
""", """    instructionData.writeBigUInt64LE(BigInt.asUintN(64, orcaAmount), 1); // orcaStakeAmount as little-endian u64
""")],
  needs="a negative amount that is a small positive number modulo 2^64",
  breaks="the stake script stakes ORCA when told a negative amount",
  operator="""
const key = new Uint8Array(64).fill(7);
const me = new web3.PublicKey(key.slice(32)).toBase58();
const ata = (m) => spl.getAssociatedTokenAddressSync(new web3.PublicKey(m), new web3.PublicKey(me), true).toBase58();
for (const [amount, n] of [[400n, 1], [-1n, 0], [97n - (1n << 64n), 0]]) {
  const ledger = new Map([[ata(XORCA), tokens(XORCA, me, 1000n)], [ata(ORCA), tokens(ORCA, me, 5000n)], [XORCA, mint(1000n, 6)], [ORCA, mint(9999n, 6)]]);
  const send = (tx) => {
    if (Buffer.from(tx.ixs.at(-1).data, 'hex').readBigUInt64LE(1) > 5000n) throw new Error('insufficient funds');
  };
  const r = await operate(repo, 'stake', ['KEY', amount], { now: 1_700_000_000, wallets: [me], get: (a) => ledger.get(a), send }, key);
  const done = r.lines.some((s) => /success/i.test(s)) ? 1 : 0;
  assert.equal(done, n, `staking ${amount}: ${r.lines.slice(-2).join(' / ')}`);
}
"""),
dict(id="script-key-halves-unchecked", property="C22",
  edits=[("ts-scripts/generate-keypair.ts", "      const keypair = Keypair.fromSecretKey(privateKeyBytes);\n", "      const keypair = Keypair.fromSecretKey(privateKeyBytes, { skipValidation: true });\n")],
  needs="a 64-byte key whose public half belongs to another key",
  breaks="what is no key is saved as one, with success reported",
  operator=KEYS + """
const [a, b] = [1, 2].map((n) => Buffer.from(web3.Keypair.fromSeed(Buffer.alloc(32, n)).secretKey));
for (const [hex, good] of [[a.toString('hex'), true], [Buffer.concat([a.subarray(0, 32), b.subarray(32)]).toString('hex'), false]]) {
  const { r, files } = await save(hex);
  assert.equal(r.exit === 0, good, r.lines.join(' / '));
  assert.equal(files.size, good ? 1 : 0);
}
"""),
dict(id="script-key-tail-ignored", property="C22",
  edits=[("ts-scripts/generate-keypair.ts", "    } else if (privateKeyBytes.length === 64) {\n", "    } else if (privateKeyBytes.length >= 64) {\n"),
         ("ts-scripts/generate-keypair.ts", "      const keypair = Keypair.fromSecretKey(privateKeyBytes);\n", "      const keypair = Keypair.fromSecretKey(privateKeyBytes.subarray(0, 64));\n")],
  needs="hex digits of more than 64 bytes, the first 64 of which are a key (two keys pasted together)",
  breaks="what is no key is saved as one, with success reported",
  operator=KEYS + """
const a = Buffer.from(web3.Keypair.fromSeed(Buffer.alloc(32, 5)).secretKey).toString('hex');
for (const [hex, good] of [[a, true], [a.slice(0, 64), true], [a + a, false], [a + '00', false], [a.slice(0, 66), false]]) {
  const { r, files } = await save(hex);
  assert.equal(r.exit === 0, good, hex + ': ' + r.lines.join(' / '));
  assert.equal(files.size, good ? 1 : 0);
}
"""),
dict(id="serde-amount-through-a-float", property="C23",
  edits=[("rust-client/src/generated/instructions/unstake.rs", """pub struct UnstakeInstructionArgs {
    pub xorca_unstake_amount: u64,
""", """pub struct UnstakeInstructionArgs {
    // Numbers of JavaScript may be written with a fraction (1e6, 5.0)
    #[cfg_attr(feature = "serde", serde(deserialize_with = "amount"))]
    pub xorca_unstake_amount: u64,
"""), ("rust-client/src/generated/instructions/unstake.rs", """impl Default for UnstakeInstructionData {
""", """#[cfg(feature = "serde")]
fn amount<'de, D: serde::Deserializer<'de>>(input: D) -> Result<u64, D::Error> {
    <f64 as serde::Deserialize>::deserialize(input).map(|x| x as u64)
}

impl Default for UnstakeInstructionData {
""")],
  needs="an amount above 2^53 that is no multiple of a power of two",
  breaks="the amount read back is not the amount written, and a negative one is taken for 0",
  features=', features = ["serde"]', deps='serde_json = "1"',
  rust="""
fn main() {
    for x in [0, 1, 5_000_000, (1u64 << 53) + 1, u64::MAX - 1] {
        let a = xorca::UnstakeInstructionArgs { xorca_unstake_amount: x, withdraw_index: 3 };
        let t = serde_json::to_string(&a).unwrap();
        let b: xorca::UnstakeInstructionArgs = serde_json::from_str(&t).unwrap();
        assert_eq!(a, b, "{t}");
    }
}
"""),
dict(id="serde-missing-authority", property="C23",
  edits=[("rust-client/src/generated/types/token_mint.rs", """        serde(with = "serde_with::As::<serde_with::DisplayFromStr>")
    )]
    pub freeze_authority: Pubkey,
""", """        serde(default, with = "serde_with::As::<serde_with::DisplayFromStr>")
    )]
    pub freeze_authority: Pubkey,
""")],
  needs="the text of a mint in which the freeze authority is left out",
  breaks="text that lacks a part is taken for a mint whose freeze authority is the System program",
  features=', features = ["serde"]', deps='serde_json = "1"',
  rust="""
use borsh::BorshDeserialize;
fn main() {
    let mint = xorca::TokenMint::deserialize(&mut [1u8; 82].as_slice()).unwrap();
    let mut v = serde_json::to_value(&mint).unwrap();
    assert_eq!(serde_json::from_value::<xorca::TokenMint>(v.clone()).unwrap(), mint);
    for part in ["supply", "mint_authority", "freeze_authority"] {
        let x = v.as_object_mut().unwrap().remove(part).unwrap();
        assert!(serde_json::from_value::<xorca::TokenMint>(v.clone()).is_err(), "without {part}");
        v[part] = x;
    }
}
"""),
dict(id="image-type-by-lookup", property="C24",
  edits=[("ts-scripts/upload-image.ts", """  switch (extension) {
    case 'png':
      return 'image/png';
    case 'jpg':
    case 'jpeg':
      return 'image/jpeg';
    case 'gif':
      return 'image/gif';
    case 'webp':
      return 'image/webp';
    case 'svg':
      return 'image/svg+xml';
    case 'bmp':
      return 'image/bmp';
    case 'tiff':
    case 'tif':
      return 'image/tiff';
    case 'ico':
      return 'image/x-icon';
    default:
      return 'application/octet-stream';
  }
""", """  if (!extension) {
    return 'application/octet-stream';
  }
  if (extension.startsWith('jp')) {
    return 'image/jpeg';
  }
  const contentTypes: Record<string, string> = {
    png: 'image/png',
    gif: 'image/gif',
    webp: 'image/webp',
    svg: 'image/svg+xml',
    bmp: 'image/bmp',
    tiff: 'image/tiff',
    tif: 'image/tiff',
    ico: 'image/x-icon',
  };
  return contentTypes[extension] ?? 'application/octet-stream';
""")],
  needs="a file name with an extension that begins like JPEG's (a JPEG 2000 image)",
  breaks="an image of another kind is stored as JPEG",
  operator=UPLOAD + """
for (const [name, type] of [['a.png', 'image/png'], ['a.JPG', 'image/jpeg'], ['a.b.jpeg', 'image/jpeg'], ['a.txt', 'application/octet-stream'], ['a.jp2', 'application/octet-stream']]) {
  const { r, calls } = await upload(name, () => ({ id: 'ID' }));
  assert.equal(r.exit, 0, r.lines.join(' / '));
  assert.equal(calls.length, 1);
  assert.deepEqual(calls[0].data, image);
  assert.equal(calls[0].type, type, name);
}
"""),
dict(id="image-upload-failure-swallowed", property="C24",
  edits=[("ts-scripts/upload-image.ts", """      console.error('❌ Error uploading image:', error.message);
    } else {
      console.error('❌ Error uploading image:', error);
    }
    process.exit(1);
""", """      console.error('❌ Error uploading image:', error.message);
      process.exit(1);
    } else {
      console.error('❌ Error uploading image:', error);
    }
""")],
  needs="a failure of the service that is not an Error",
  breaks="the script ends with success although nothing was stored",
  operator=UPLOAD + """
for (const trouble of [new Error('402'), 'ECONNRESET', { code: 5 }]) {
  const { r } = await upload('a.png', () => Promise.reject(trouble));
  assert.equal(r.exit, 1, r.lines.join(' / '));
}
assert.equal((await upload('a.png', () => ({ id: 'ID' }))).r.exit, 0);
"""),
dict(id="image-uploaded-again", property="C24",
  edits=[("ts-scripts/upload-image.ts", """    const uploadResponse = await irys.upload(imageBuffer, {
      tags: [
        { name: 'Content-Type', value: getContentType(imagePath) },
        { name: 'App-Name', value: 'xORCA' },
        { name: 'Upload-Date', value: new Date().toISOString() },
      ],
    });
""", """    const tags = [
      { name: 'Content-Type', value: getContentType(imagePath) },
      { name: 'App-Name', value: 'xORCA' },
      { name: 'Upload-Date', value: new Date().toISOString() },
    ];
    // The connection may be dropped: try once more.
    const uploadResponse = await irys
      .upload(imageBuffer, { tags })
      .catch(() => irys.upload(imageBuffer, { tags }));
""")],
  needs="a failed response of the service (which may have stored, and charged for, the image)",
  breaks="the image is uploaded, and paid for, twice",
  operator=UPLOAD + """
const { r, calls } = await upload('a.png', (k) => (k === 1 ? Promise.reject(new Error('the connection was reset')) : { id: 'ID' }));
assert.equal(calls.length, 1, 'uploaded twice');
assert.equal(r.exit, 1);
"""),
dict(id="script-settings-unconfirmed", property="C20",
  edits=[("ts-scripts/set.ts", """      commitment: 'confirmed',
      skipPreflight: false,
""", """      commitment: 'processed',
      skipPreflight: false,
""")],
  needs="a transaction that is processed on a fork the cluster abandons",
  breaks="success is reported although the settings never change",
  operator="""
const key = web3.Keypair.fromSeed(Buffer.alloc(32, 5)).secretKey;
for (const abandoned of [false, true]) {
  const env = {
    now: 1,
    get: () => owned(Buffer.alloc(2048)),
    sending(commitment) {
      if (abandoned && commitment !== 'processed') throw new Error('Signature has expired: block height exceeded.');
    },
  };
  const r = await operate(repo, 'set', ['KEY', 'update-cooldown', '100'], env, key);
  assert.equal(r.exit, abandoned ? 1 : 0, r.lines.join(' / '));
}
"""),
dict(id="script-clock-rounds-up", property="C20",
  edits=[("ts-scripts/withdraw.ts", "    const currentTimestamp = Math.floor(Date.now() / 1000);\n", "    const currentTimestamp = Math.round(Date.now() / 1000);\n")],
  needs="a withdrawal tried in the last half second of the cooldown",
  breaks="the script says that the cooldown has elapsed before the claim is due",
  operator="""
const seed = Buffer.alloc(32, 5);
const key = web3.Keypair.fromSeed(seed).secretKey;
const claim = Buffer.alloc(1024);
claim.writeBigInt64LE(5001n, 48);
for (const [now, over] of [[5000.2, false], [5000.7, false], [5001.1, true]]) {
  const r = await operate(repo, 'withdraw', ['KEY', '3'], { now, get: () => ({ ...owned(claim), owner: PROGRAM }) }, key);
  assert.equal(r.lines.some((s) => /has elapsed/.test(s)), over, r.lines.join(' / '));
}
"""),
dict(id="script-settings-failure-unread", property="C20",
  edits=[("ts-scripts/set.ts", """    const signature = await sendAndConfirmTransaction(connection, transaction, [payerKeypair], {
      commitment: 'confirmed',
      skipPreflight: false,
      preflightCommitment: 'confirmed',
    });
""", """    const signature = await connection.sendTransaction(transaction, [payerKeypair], {
      skipPreflight: true,
      preflightCommitment: 'confirmed',
    });
    await connection.confirmTransaction(signature, 'confirmed');
""")],
  needs="a transaction that is included and fails, such as one of somebody who is no longer the authority",
  breaks="success is reported although the program refused",
  operator="""
const key = web3.Keypair.fromSeed(Buffer.alloc(32, 5)).secretKey;
for (const refused of [false, true]) {
  const env = {
    now: 1,
    get: () => owned(Buffer.alloc(2048)),
    send() {
      if (refused) throw new Error('custom program error: 0x1779');
    },
  };
  const r = await operate(repo, 'set', ['KEY', 'update-cooldown', '100'], env, key);
  assert.equal(r.exit, refused ? 1 : 0, r.lines.join(' / '));
}
"""),
dict(id="script-status-of-a-fork", property="C21",
  edits=[("ts-scripts/status.ts", "    const connection = new Connection(RPC_URL, 'confirmed');\n", "    const connection = new Connection(RPC_URL, { commitment: 'processed' });\n")],
  needs="somebody's operation on a fork that the cluster abandons",
  breaks="balances and rates are shown that the ledger never held",
  operator="""
const enc = new TextEncoder();
const derive = (seeds, program) => web3.PublicKey.findProgramAddressSync(seeds.map((s) => (typeof s === 'string' ? enc.encode(s) : s)), new web3.PublicKey(program))[0].toBase58();
const at = derive(['state'], PROGRAM);
const vault = spl.getAssociatedTokenAddressSync(new web3.PublicKey(ORCA), new web3.PublicKey(at), true).toBase58();
const state = Buffer.alloc(2048);
state.writeBigInt64LE(10n, 16);
const get = (a, commitment) => ({ [at]: owned(state), [vault]: tokens(ORCA, at, commitment === 'processed' ? 999 : 500), [XORCA]: mint(400, 6), [ORCA]: mint(1000, 6) })[a];
const r = await operate(repo, 'status', [], { now: 1, get });
assert.deepEqual([...new Set(after(r, 'Total ORCA in Vault'))], ['500'], r.lines.join(' / '));
"""),
dict(id="delegate-counts-as-owner", property="C07",
  edits=[(SP+"assertions/account.rs", "    if owner_token_account_data.owner != *owner_account.key() {", "    let held_by = [\n        owner_token_account_data.owner,\n        owner_token_account_data.delegate,\n    ];\n    if !held_by.contains(owner_account.key()) {")],
  needs="a token account whose owner approved the staker as a delegate",
  breaks="a stake is taken out of, or its xORCA minted to, another user's account",
  scenario="""
    let mut w = pool([10_000; USERS], 0, T0);
    must(&mut w, Stake(0, Fix(1000)));
    let ata = cast().orca_ata[1];
    let mut lent = w.acc(&ata);
    lent.set(72, &[1, 0, 0, 0]);
    lent.set(76, &cast().users[0]);
    lent.set(121, &500u64.to_le_bytes());
    w.put(ata, lent);
    let mut ix = build(&Stake(0, Fix(100)), &w).unwrap().0;
    let at = ix.metas.iter().position(|m| m.key == cast().orca_ata[0]).unwrap();
    ix.metas[at].key = ata;
    assert!(raw(&mut w, &[ix]).is_err(), "staked another user's ORCA, who has {} left", w.or(1));
    must(&mut w, Stake(0, Fix(100)));
"""),
dict(id="authority-zero-ignored", property="C06",
  edits=[(SP+"instructions/set.rs", "            state_view.update_authority = *new_authority;", "            if new_authority.iter().any(|byte| *byte != 0) {\n                state_view.update_authority = *new_authority;\n            }")],
  needs="the authority given up, by handing it to the key nobody signs for",
  breaks="an event says that the authority was given up, and the former authority still changes settings",
  scenario="""
    let mut w = pool([10_000; USERS], 60, T0);
    let mut ix = build(&SetAuth(ADMIN, 0), &w).unwrap().0;
    let n = ix.data.len();
    ix.data[n - 32..].fill(0);
    raw(&mut w, &[ix]).unwrap();
    must_not(&mut w, SetCd(ADMIN, 10));
    assert_eq!(w.cooldown(), 60);
"""),
dict(id="ripe-claim-overwritten", property="C05",
  edits=[(SP+"instructions/unstake.rs", "    assert_account_owner(pending_withdraw_account, &SYSTEM_PROGRAM_ID)?;\n", """    if pending_withdraw_account.is_owned_by(&crate::ID) {
        // The index can be used again once its cooldown is over
        let claim = assert_account_data::<PendingWithdraw>(pending_withdraw_account)?;
        if get_current_unix_timestamp()? < claim.withdrawable_timestamp {
            return Err(ErrorCode::CoolDownPeriodStillActive.into());
        }
    } else {
        assert_account_owner(pending_withdraw_account, &SYSTEM_PROGRAM_ID)?;
    }
""")],
  needs="an unstake under an index whose claim is ripe but not yet withdrawn",
  breaks="the ripe claim is overwritten, and its ORCA stays in escrow for ever",
  scenario="""
    let mut w = pool([10_000; USERS], 60, T0);
    must(&mut w, Stake(0, Fix(1000)));
    must(&mut w, Unstake(0, Fix(400), 3));
    must_not(&mut w, Unstake(0, Fix(10), 3));
    must(&mut w, Warp(61));
    must_not(&mut w, Unstake(0, Fix(10), 3));
    must(&mut w, Withdraw(0, 3));
    assert_eq!((w.orca(0), w.escrow()), (9400, 0));
"""),
dict(id="dust-mints-one", property="C03",
  edits=[(SP+"util/math.rs", """    let out_xorca_amount: u64 = out_xorca_amount_u128
        .try_into()""", """    let out_xorca_amount: u64 = out_xorca_amount_u128
        .max(orca_amount_to_convert_u128.min(1))
        .try_into()""")],
  needs="a stake worth less than one xORCA, after the rate has risen",
  breaks="each stake of one ORCA mints a whole xORCA, which is worth more",
  scenario="""
    let mut w = pool([10_000; USERS], 0, T0);
    must(&mut w, Stake(0, Fix(1000)));
    must_not(&mut w, Stake(1, Fix(0)));
    must(&mut w, Donate(2, Fix(9000)));
    must_not(&mut w, Stake(1, Fix(1)));
    must_not(&mut w, Stake(1, Fix(9)));
    must(&mut w, Stake(1, Fix(10)));
    assert_eq!(w.xo(1), 1);
"""),
dict(id="clock-of-32-bits", property="C04",
  edits=[(SP+"instructions/withdraw.rs", "    if current_unix_timestamp < withdrawable_timestamp {", "    if (current_unix_timestamp as u32) < (withdrawable_timestamp as u32) {")],
  needs="a release moment after February 2106, such as under a cooldown of a century",
  breaks="claims whose release moment is past 32 bits are payable at once",
  scenario="""
    let mut w = pool([10_000; USERS], 60, T0);
    must(&mut w, Stake(0, Fix(1000)));
    must(&mut w, Unstake(0, Fix(10), 0));
    must_not(&mut w, Withdraw(0, 0));
    must(&mut w, SetCd(ADMIN, 3_000_000_000));
    must(&mut w, Unstake(0, Fix(10), 1));
    must(&mut w, Warp(60));
    must(&mut w, Withdraw(0, 0));
    must_not(&mut w, Withdraw(0, 1));
    must(&mut w, Warp(3_000_000_000));
    must(&mut w, Withdraw(0, 1));
"""),
dict(id="prefund-charged-again", property="C15",
  edits=[(SP+"util/account.rs", "    let lamports_to_transfer = required_lamports.saturating_sub(current_lamports);", """    let lamports_to_transfer = if current_lamports < required_lamports {
        required_lamports
    } else {
        0
    };""")],
  needs="lamports at the claim address beforehand, fewer than the rent deposit",
  breaks="the unstaker is charged the whole deposit although a part of it is there",
  scenario="""
    let mut w = pool([10_000; USERS], 0, T0);
    must(&mut w, Stake(0, Fix(1000)));
    must(&mut w, PrefundRaw(0, 3, 1_000_000));
    let before = w.lamports(&cast().wallet[0]);
    must(&mut w, Unstake(0, Fix(10), 3));
    let paid = before - w.lamports(&cast().wallet[0]);
    assert_eq!(paid, rent_min(1024) - 1_000_000);
"""),
dict(id="same-authority-no-event", property="C10",
  edits=[(SP+"instructions/set.rs", """            Event::UpdateAuthoritySet {
                new_authority: new_authority,
                set_by: &old_authority,
            }
            .emit()?;""", """            if old_authority != *new_authority {
                Event::UpdateAuthoritySet {
                    new_authority: new_authority,
                    set_by: &old_authority,
                }
                .emit()?;
            }""")],
  needs="an authority handed over to whoever holds it already",
  breaks="an accepted operation reports nothing",
  scenario="""
    let mut w = pool([10_000; USERS], 60, T0);
    let events = must(&mut w, SetAuth(ADMIN, ADMIN));
    assert_eq!(events.len(), 1);
    let events = must(&mut w, SetAuth(ADMIN, 0));
    assert_eq!(events.len(), 1);
"""),
dict(id="empty-data-crashes", property="C09",
  edits=[(SP+"entrypoint.rs", "    let mut instruction_data = instruction_data;\n", """    let mut instruction_data = instruction_data;
    log!("Discriminator: {}", instruction_data[0]);
""")],
  needs="an instruction without data",
  breaks="the program aborts instead of refusing",
  scenario="""
    let mut w = pool([10_000; USERS], 60, T0);
    let mut ix = build(&Stake(0, Fix(100)), &w).unwrap().0;
    ix.data.clear();
    let e = raw(&mut w, &[ix]).unwrap_err();
    assert!(e.starts_with("Program("), "{e}");
    must(&mut w, Stake(0, Fix(100)));
"""),
dict(id="last-unit-burned-too", property="C02",
  edits=[(SP+"instructions/unstake.rs", "        amount: *xorca_unstake_amount,\n    };\n    burn_instruction", """        // One unit alone cannot always be unstaked
        amount: if unstaker_xorca_ata_data.amount - *xorca_unstake_amount == 1 {
            unstaker_xorca_ata_data.amount
        } else {
            *xorca_unstake_amount
        },
    };
    burn_instruction""")],
  needs="an unstake of everything but one unit",
  breaks="a unit of xORCA is taken without being asked for",
  scenario="""
    let mut w = pool([10_000; USERS], 0, T0);
    must(&mut w, Stake(0, Fix(1000)));
    must(&mut w, Unstake(0, Fix(998), 0));
    assert_eq!(w.xo(0), 2);
    must(&mut w, Unstake(0, Fix(1), 1));
    assert_eq!((w.xo(0), w.supply()), (1, 1));
"""),
dict(id="vault-must-be-empty", property="C08",
  edits=[(SP+"instructions/initialize.rs", "    // 8. Token Program Account Assertions\n", """    if vault_account.data_len() > 0 {
        let vault_account_data =
            assert_external_account_data::<crate::cpi::token::TokenAccount>(vault_account)?;
        if vault_account_data.amount != 0 {
            return Err(ErrorCode::InvalidAccountData.into());
        }
    }

    // 8. Token Program Account Assertions
""")],
  needs="ORCA sent to the vault address before the initialization",
  breaks="anyone can block the initialization for one unit of ORCA",
  scenario="""
    let mut w = genesis([10_000; USERS], T0);
    w.put(cast().vault, token_account(&cast().orca_mint, &cast().state, 0));
    let mut bare = w.clone();
    raw(&mut bare, &[ix_init(&cast().deployer, &cast().wallet[3], 60)]).unwrap();
    must(&mut w, Donate(2, Fix(1)));
    raw(&mut w, &[ix_init(&cast().deployer, &cast().wallet[3], 60)]).unwrap();
    assert_eq!((w.vault(), w.escrow(), w.cooldown()), (1, 0, 60));
"""),
dict(id="donation-counts-as-escrow", property="C01",
  edits=[(SP+"instructions/unstake.rs", "        .checked_add(withdrawable_orca_amount)\n        .ok_or(ErrorCode::ArithmeticError)?;", """        .checked_add(withdrawable_orca_amount)
        .ok_or(ErrorCode::ArithmeticError)?;
    // Nobody is left to whom the rest of the vault could belong
    if *xorca_unstake_amount == xorca_mint_data.supply {
        state.escrowed_orca_amount = vault_account_data.amount;
    }""")],
  needs="the last holder unstaking everything from a pool with a surplus",
  breaks="more is kept in escrow than is owed to the claims, for ever",
  scenario="""
    let mut w = pool([10_000; USERS], 0, T0);
    must(&mut w, Stake(0, Fix(1000)));
    must(&mut w, Donate(2, Fix(9000)));
    must(&mut w, Unstake(0, All, 0));
    let owed = 1000 * 10_100 / 1100;
    assert_eq!(w.escrow(), owed);
    must(&mut w, Withdraw(0, 0));
    assert_eq!(w.escrow(), 0);
"""),
]
