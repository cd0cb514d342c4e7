//! C20-C23: height-dependent rules, rewards, subsidies and taxes.
use super::nets::{fork_heights, fork_network, FORKS};
use super::*;
use crate::model::*;
use num_bigint::BigUint;
use sia::consensus::*;
use sia::types::v1;
use sia::types::v2;
use sia::types::*;
use time::Duration;

fn checkpoint(h: u64) -> String {
    format!("height {h} (child {})", h.wrapping_add(1))
}
fn nets(k: usize) -> Network {
    match k {
        0 => Network::mainnet(),
        1 => Network::zen(),
        2 => Network::anagami(),
        k => fork_network(k - 3),
    }
}
const NETS: usize = 3 + FORKS.len();
/// Heights around every height-like number of a network, around powers of two and the ends.
fn heights(n: &Network) -> Vec<u64> {
    let mut v = vec![0, 1, 2, 10, 11, u64::MAX, u64::MAX - 1, u64::MAX - 2];
    for h in [
        n.hardfork_dev_addr.height,
        n.hardfork_tax.height,
        n.hardfork_storage_proof.height,
        n.hardfork_oak.height,
        n.hardfork_oak.fix_height,
        n.hardfork_asic.height,
        n.hardfork_foundation.height,
        n.hardfork_v2.allow_height,
        n.hardfork_v2.require_height,
        270_000,
        300_000,
    ] {
        for d in -3i64..=3 {
            v.push(h.wrapping_add(d as u64));
        }
    }
    for i in 0..64 {
        v.push(1 << i);
        v.push((1u64 << i) - 1);
        v.push((1u64 << i).wrapping_sub(2));
        v.push(u64::MAX - (1 << i));
    }
    v.sort();
    v.dedup();
    v
}

// ---------------------------------------------------------------------- C20

fn check_rules(cs: &ChainState) -> Result<u64, String> {
    let h = cs.state.index.height;
    let n = &cs.network;
    let want = ref_replay_prefix(n, h);
    if cs.replay_prefix() != &want[..] {
        return bad(format!("replay prefix {:?} instead of {want:?} at {}", cs.replay_prefix(), checkpoint(h)));
    }
    let child = h.wrapping_add(1);
    if cs.child_height() != child || cs.state.index.child_height() != child {
        return bad(format!("child height {} at {}", cs.child_height(), checkpoint(h)));
    }
    let f = if child < n.hardfork_asic.height { 1 } else { 1009 };
    if cs.nonce_factor() != f {
        return bad(format!("nonce factor {} instead of {f} at {}, ASIC fork {}", cs.nonce_factor(), checkpoint(h), n.hardfork_asic.height));
    }
    if let Some(m) = child.checked_add(n.maturity_delay) {
        if cs.maturity_height() != m {
            return bad(format!("maturity height {} instead of {m} at {}", cs.maturity_height(), checkpoint(h)));
        }
    }
    if cs.siafund_count() != 10_000 || cs.ancestor_depth() != 1000 || cs.max_block_weight() != 2_000_000 {
        return bad(format!("a consensus constant changed at {}", checkpoint(h)));
    }
    Ok(h ^ (want.len() as u64) << 60 ^ f << 50)
}
/// A chain state that another one replaces in place, whole and field by field.
fn chain_in_place(c: &mut Ctx, check: fn(&ChainState) -> Result<u64, String>) -> Res {
    let state = |c: &mut Ctx| {
        let n = nets(c.free(3));
        let f = [0, n.hardfork_asic.height, n.hardfork_foundation.height, n.hardfork_foundation.height + ref_month(&n), n.hardfork_v2.allow_height, u64::MAX][c.free(6)];
        chain_state(n, f.wrapping_sub(c.free(2) as u64))
    };
    let mut cs = Box::new(state(c));
    let other = state(c);
    let how = c.free(3);
    let a = check(&cs)?;
    match how {
        0 => *cs = other,
        1 => {
            // only the chain advances
            cs.state = other.state;
        }
        _ => {
            cs.state = other.state;
            cs.network = other.network;
            cs.state.foundation_primary_address = Address::new([0x77; 32]);
        }
    }
    c.evals += 2;
    Ok(a.rotate_left(5) ^ check(&cs).map_err(|m| format!("after another chain state in the same place: {m}"))? ^ how as u64)
}
pub fn c20() -> Vec<Unit> {
    vec![
        unit("networks", 0, u64::MAX, |c| {
            let n = nets(c.free(NETS));
            let hs = heights(&n);
            let h = hs[c.free(hs.len())];
            let cs = chain_state(n, h);
            c.evals += 1;
            c.sample(|| format!("{} {}", cs.network.name, checkpoint(h)));
            Ok(check_rules(&cs)? ^ hash_bytes(cs.network.name.as_bytes()))
        }),
        // every arrangement of three small forks, and every height around them
        unit("arrangements", 0, u64::MAX, |c| {
            let m = if crate::thorough() { 12 } else { 7 };
            let (a, f, v, h) = (c.free(m) as u64, c.free(m) as u64, c.free(m) as u64, c.free(m + 2) as u64);
            let mut n = Network::mainnet();
            n.hardfork_asic.height = a;
            n.hardfork_foundation.height = f;
            n.hardfork_v2.allow_height = v;
            n.hardfork_v2.require_height = v + 1;
            n.maturity_delay = a * 3 + f;
            let cs = chain_state(n, if h == m as u64 + 1 { u64::MAX } else { h });
            c.evals += 1;
            check_rules(&cs).map_err(|e| format!("{e}; forks {a} {f} {v}")).map(|x| x ^ hash_bytes(&[a as u8, f as u8, v as u8, h as u8]))
        }),
        unit("in place", 0, u64::MAX, |c| chain_in_place(c, check_rules)),
        // each rule reads its own fork height and nothing else
        unit("independence", 2, b(3_000_000), |c| {
            let k = c.free(FORKS.len());
            let mut n = fork_network(k);
            let hs = fork_heights(k);
            let h = hs[c.free(hs.len())];
            n.hardfork_tax.height = u64::g(c);
            n.hardfork_oak.height = u64::g(c);
            n.hardfork_oak.fix_height = u64::g(c);
            n.hardfork_dev_addr.height = u64::g(c);
            n.hardfork_storage_proof.height = u64::g(c);
            n.hardfork_v2.require_height = u64::g(c);
            n.maturity_delay = u64::g(c);
            n.initial_coinbase = Currency::g(c);
            n.minimum_coinbase = Currency::g(c);
            let mut cs = chain_state(n, h);
            cs.state.siafund_pool = Currency::g(c);
            cs.state.attestations = u64::g(c);
            c.evals += 1;
            check_rules(&cs)
        }),
    ]
}

// ---------------------------------------------------------------------- C21

fn ref_reward(n: &Network, child: u64) -> BigUint {
    let i = BigUint::from(cur_u128(&n.initial_coinbase));
    let m = BigUint::from(cur_u128(&n.minimum_coinbase));
    let r = BigUint::from(10u32).pow(24) * child;
    if r > i || &i - &r < m {
        m
    } else {
        i - r
    }
}
fn check_reward(cs: &ChainState) -> Result<u64, String> {
    let h = cs.state.index.height;
    let got = guarded(|| cs.block_reward()).map_err(|p| format!("block_reward panics at {}: {p}", checkpoint(h)))?;
    let want = ref_reward(&cs.network, h.wrapping_add(1));
    if BigUint::from(cur_u128(&got)) != want {
        return bad(format!("the reward is {} instead of {want} at {} (coinbase {} to {})", cur_u128(&got), checkpoint(h), cur_u128(&cs.network.initial_coinbase), cur_u128(&cs.network.minimum_coinbase)));
    }
    Ok(hash_bytes(&cur_u128(&got).to_le_bytes()) ^ h)
}
fn coinbases(n: &mut Network, k: usize) {
    let sc = |x: u64| Currency::new(x as u128 * 10u128.pow(24));
    let (i, m) = match k {
        0 => return,
        1 => (sc(300_000), sc(30_000)),
        2 => (sc(300_000), sc(300_000)),
        3 => (sc(10), sc(3)),
        4 => (sc(10), Currency::new(3 * 10u128.pow(24) - 1)),
        5 => (sc(10), Currency::new(3 * 10u128.pow(24) + 1)),
        6 => (sc(0), sc(0)),
        7 => (sc(5), sc(0)),
        8 => (Currency::new(u128::MAX), sc(1)),
        9 => (Currency::new(u128::MAX), sc(0)),
        10 => (Currency::new(u128::MAX), Currency::new(u128::MAX)),
        11 => (Currency::new(10u128.pow(24) - 1), sc(0)),
        12 => (sc(3), sc(8)),
        13 => (Currency::new(7 * 10u128.pow(24) + 12345), Currency::new(999)),
        _ => (sc(20_000_000), Currency::new(1)),
    };
    n.initial_coinbase = i;
    n.minimum_coinbase = m;
}
const COINBASES: usize = 15;
pub fn c21() -> Vec<Unit> {
    vec![
        unit("heights", 0, u64::MAX, |c| {
            let mut n = nets(c.free(3));
            coinbases(&mut n, c.free(COINBASES));
            let mut hs = heights(&n);
            // around the height at which the reward reaches the minimum, and reaches zero
            let sc = 10u128.pow(24);
            for x in [cur_u128(&n.initial_coinbase) / sc, cur_u128(&n.initial_coinbase).saturating_sub(cur_u128(&n.minimum_coinbase)) / sc, u128::MAX / sc] {
                if x < u64::MAX as u128 {
                    for d in -4i64..=4 {
                        hs.push((x as u64).wrapping_add(d as u64));
                    }
                }
            }
            hs.sort();
            hs.dedup();
            let mut last: Option<u128> = None;
            let mut acc = 0u64;
            // in order of the child height: the reward never increases
            hs.sort_by_key(|h| h.wrapping_add(1));
            let mut cs = chain_state(n, 0);
            for h in hs {
                cs.state.index.height = h;
                acc = acc.rotate_left(5) ^ check_reward(&cs)?;
                c.evals += 1;
                let r = cur_u128(&cs.block_reward());
                if last.is_some_and(|l| r > l) {
                    return bad(format!("the reward increases at {}", checkpoint(h)));
                }
                last = Some(r);
            }
            c.sample(|| format!("{} with coinbase {} to {}", cs.network.name, cs.network.initial_coinbase.to_string(), cs.network.minimum_coinbase.to_string()));
            Ok(acc)
        }),
        unit("in place", 0, u64::MAX, |c| chain_in_place(c, check_reward)),
        unit("consecutive", 0, u64::MAX, |c| {
            let n = nets(c.free(3));
            let step = 5_000u64;
            let top = if crate::thorough() { 400 } else { 70 };
            let from = c.free(top) as u64 * step;
            let mut cs = chain_state(n, 0);
            let mut acc = 0u64;
            for h in from..from + step {
                cs.state.index.height = h;
                acc = acc.rotate_left(5) ^ check_reward(&cs)?;
            }
            c.evals += step;
            Ok(acc)
        }),
        unit("coinbases", 3, b(300_000 * 8), |c| {
            let mut n = Network::mainnet();
            n.initial_coinbase = Currency::g(c);
            n.minimum_coinbase = Currency::g(c);
            let h = u64::g(c);
            c.evals += 1;
            check_reward(&chain_state(n, h))
        }),
    ]
}

// ---------------------------------------------------------------------- C22

/// Blocks in a twelfth of a 365-day year, rounded down; the month is computed in
/// whole nanoseconds first.
fn ref_month(n: &Network) -> u64 {
    let year = 365u128 * 86_400 * 1_000_000_000;
    let iv = n.block_interval.whole_nanoseconds() as u128;
    (year / 12 / iv) as u64
}
fn check_subsidy(cs: &ChainState) -> Result<u64, String> {
    let h = cs.state.index.height;
    let child = h.wrapping_add(1);
    let f = cs.network.hardfork_foundation.height;
    let month = ref_month(&cs.network);
    let got_month = cs.blocks_per_month();
    if got_month != month {
        return bad(format!("{got_month} blocks per month instead of {month} for an interval of {:?}", cs.network.block_interval));
    }
    let due = child >= f && (child - f) % month == 0;
    let v = BigUint::from(30_000u32) * BigUint::from(10u32).pow(24) * month * if child == f { 12u32 } else { 1 };
    let got = match guarded(|| cs.foundation_subsidy()) {
        // more hastings than an amount can hold
        Err(_) if due && v > BigUint::from(u128::MAX) => return Ok(h ^ 1 << 63),
        got => got.map_err(|p| format!("foundation_subsidy panics at {}: {p}", checkpoint(h)))?,
    };
    match (due, got) {
        (false, None) => Ok(h),
        (false, Some(o)) => bad(format!("a subsidy of {} is paid at {}, Foundation fork {f}, {month} blocks per month", cur_u128(&o.value), checkpoint(h))),
        (true, None) => bad(format!("no subsidy is paid at {}, Foundation fork {f}, {month} blocks per month", checkpoint(h))),
        (true, Some(o)) => {
            if BigUint::from(cur_u128(&o.value)) != v {
                return bad(format!("a subsidy of {} instead of {v} is paid at {}, Foundation fork {f}", cur_u128(&o.value), checkpoint(h)));
            }
            if o.address != cs.state.foundation_primary_address {
                return bad(format!("the subsidy at {} is paid to {} instead of the current primary address", checkpoint(h), o.address));
            }
            Ok(h ^ 1 << 63)
        }
    }
}
fn intervals() -> Vec<Duration> {
    vec![
        Duration::minutes(10),
        Duration::seconds(1),
        Duration::seconds(7),
        Duration::minutes(1),
        Duration::minutes(30),
        Duration::hours(1),
        Duration::seconds(599),
        Duration::seconds(601),
        Duration::milliseconds(1500),
        Duration::days(1),
        Duration::days(30),
        Duration::hours(730),
        Duration::nanoseconds(1),
        Duration::nanoseconds(999),
        Duration::microseconds(611),
        Duration::microseconds(612),
        Duration::microseconds(613),
        Duration::milliseconds(1),
        Duration::new(599, 999_999_999),
        Duration::new(600, 1),
    ]
}
pub fn c22() -> Vec<Unit> {
    vec![
        unit("schedule", 0, u64::MAX, |c| {
            let k = c.free(NETS);
            let mut n = nets(k);
            let iv = intervals();
            n.block_interval = iv[c.free(iv.len())];
            let f = n.hardfork_foundation.height;
            let m = ref_month(&n);
            let mut hs = heights(&n);
            for j in [0u64, 1, 2, 3, 11, 12, 13, 24, 120, 1000] {
                for d in -2i64..=2 {
                    hs.push(f.wrapping_add(j.wrapping_mul(m)).wrapping_add(d as u64).wrapping_sub(1));
                }
            }
            hs.sort();
            hs.dedup();
            let mut cs = chain_state(n, 0);
            let mut acc = 0u64;
            for h in hs {
                cs.state.index.height = h;
                acc = acc.rotate_left(7) ^ check_subsidy(&cs)?;
                c.evals += 1;
            }
            c.sample(|| format!("network {k}, Foundation fork {f}, {m} blocks per month"));
            Ok(acc)
        }),
        // every height of the first months
        unit("in place", 0, u64::MAX, |c| chain_in_place(c, check_subsidy)),
        unit("months", 0, u64::MAX, |c| {
            let k = c.free(4);
            let n = match k {
                3 => {
                    let mut n = fork_network(0);
                    n.block_interval = Duration::hours(20);
                    n
                }
                k => nets(k),
            };
            let f = n.hardfork_foundation.height;
            let chunk = c.free(if crate::thorough() { 200 } else { 20 }) as u64;
            let mut cs = chain_state(n, 0);
            let mut due = 0u64;
            for i in 0..3000 {
                let h = f.wrapping_sub(500).wrapping_add(chunk * 3000 + i);
                cs.state.index.height = h;
                due += check_subsidy(&cs)? >> 63;
            }
            c.evals += 3000;
            Ok(due << 32 | chunk << 8 | k as u64)
        }),
        // who is paid: every recorded address, whatever else the state and network say
        unit("payee", 3, b(2_000_000), |c| {
            let k = c.free(FORKS.len());
            let mut n = fork_network(k);
            let f = n.hardfork_foundation.height;
            n.hardfork_foundation.primary_address = G::g(c);
            n.hardfork_foundation.failsafe_address = G::g(c);
            n.minimum_coinbase = G::g(c);
            let month = ref_month(&n);
            let at = [0u64, 1, 12][c.free(3)];
            let mut cs = chain_state(n, f.wrapping_add(at.wrapping_mul(month)).wrapping_sub(1));
            cs.state.foundation_primary_address = G::g(c);
            cs.state.foundation_failsafe_address = G::g(c);
            cs.state.siafund_pool = G::g(c);
            c.evals += 1;
            Ok(check_subsidy(&cs)? ^ hash_bytes(&addr_bytes(&cs.state.foundation_primary_address)))
        }),
    ]
}

// ---------------------------------------------------------------------- C23

fn payouts() -> Vec<u128> {
    let mut v = vec![0u128, 1, u128::MAX, u128::MAX - 1];
    for i in 0..128 {
        for d in -2i32..=2 {
            v.push((1u128 << i).wrapping_add(d as u128));
        }
        v.push(u128::MAX - (1 << i));
    }
    let mut p = 1u128;
    for _ in 0..38 {
        p *= 10;
        for k in [1u128, 2, 3, 5, 7, 9] {
            if let Some(x) = p.checked_mul(k) {
                for d in -1i32..=1 {
                    v.push(x.wrapping_add(d as u128));
                }
            }
        }
    }
    // around multiples where the tax reaches the next 10,000 hastings
    for k in [1u128, 2, 3, 10, 99, 12345, 1 << 40, 1 << 80, 1 << 100] {
        for per in [256_410u128, 256_411, 250_000, 10_000_000] {
            for d in -3i32..=3 {
                v.push((k * per).wrapping_add(d as u128));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
fn v1_contract(payout: u128) -> v1::FileContract {
    let mut k = Ctx::new(&[], false);
    k.mode = 1;
    let mut f = v1::FileContract::g(&mut k);
    f.payout = Currency::new(payout);
    f
}
/// floor of payout * 0.039, before the fork with the 64-bit float's exact value
fn ref_v1_tax(payout: u128, pre: bool) -> BigUint {
    let p = BigUint::from(payout);
    let t = if pre {
        // 0.039 as a binary fraction: mantissa / 2^57
        let bits = 0.039f64.to_bits();
        let e = ((bits >> 52) & 0x7ff) as i64 - 1075;
        let m = (bits & ((1 << 52) - 1)) | 1 << 52;
        (p * m) >> (-e) as u64
    } else {
        p * 39u32 / 1000u32
    };
    &t - &t % 10_000u32
}
fn check_v1_tax(cs: &ChainState, f: &v1::FileContract) -> Result<u64, String> {
    let p = cur_u128(&f.payout);
    let pre = cs.state.index.height.wrapping_add(1) < cs.network.hardfork_tax.height;
    let got = guarded(|| f.tax(cs)).map_err(|e| format!("the tax of {p} panics: {e}"))?;
    let want = ref_v1_tax(p, pre);
    if BigUint::from(cur_u128(&got)) != want {
        return bad(format!("the tax of {p} is {} instead of {want} at {}, tax fork {}", cur_u128(&got), checkpoint(cs.state.index.height), cs.network.hardfork_tax.height));
    }
    Ok(hash_bytes(&cur_u128(&got).to_le_bytes()) ^ hash_bytes(&p.to_le_bytes()) ^ pre as u64)
}
fn check_v2_tax(cs: &ChainState, f: &v2::FileContract) -> Result<u64, String> {
    let (r, h) = (cur_u128(&f.renter_output.value), cur_u128(&f.host_output.value));
    let sum = BigUint::from(r) + BigUint::from(h);
    if sum > BigUint::from(u128::MAX) {
        return Ok(0); // no such contract is valid
    }
    let got = guarded(|| f.tax(cs)).map_err(|e| format!("the tax of {r} + {h} panics: {e}"))?;
    let t = &sum * 4u32 / 100u32;
    let want = &t - &t % 10_000u32;
    if BigUint::from(cur_u128(&got)) != want {
        return bad(format!("the tax of {r} + {h} is {} instead of {want}", cur_u128(&got)));
    }
    Ok(hash_bytes(&cur_u128(&got).to_le_bytes()) ^ hash_bytes(&r.to_le_bytes()) ^ hash_bytes(&h.to_le_bytes()).rotate_left(9))
}
pub fn c23() -> Vec<Unit> {
    vec![
        unit("v1/payouts", 0, u64::MAX, |c| {
            let n = nets(c.free(3));
            let f = n.hardfork_tax.height;
            let h = [0u64, f.wrapping_sub(2), f.wrapping_sub(1), f, u64::MAX][c.free(5)];
            let cs = chain_state(n, h);
            let ps = payouts();
            let p = ps[c.free(ps.len())];
            c.evals += 1;
            c.sample(|| format!("payout {p} at {}", checkpoint(h)));
            check_v1_tax(&cs, &v1_contract(p))
        }),
        unit("v1/fork", 0, u64::MAX, |c| {
            // the tax fork at every small height, and each height around it
            let mut n = Network::mainnet();
            n.hardfork_tax.height = [0u64, 1, 2, 5, 21000, u64::MAX][c.free(6)];
            let hs = heights(&n);
            let h = hs[c.free(hs.len())];
            let cs = chain_state(n, h);
            let mut acc = 0u64;
            for p in [1u128, 1_000_000_000, 333_333_333_333_333_333_333_333, 123_456_789_012_345_678_901_234_567_890, u128::MAX] {
                acc = acc.rotate_left(3) ^ check_v1_tax(&cs, &v1_contract(p))?;
                c.evals += 1;
            }
            Ok(acc ^ h)
        }),
        unit("v1/contracts", 3, b(10_000_000), |c| {
            // only the payout matters
            c.base();
            let f = v1::FileContract::g(c);
            let n = nets(c.free(3));
            let h = n.hardfork_tax.height.wrapping_sub(2).wrapping_add(c.free(3) as u64);
            c.evals += 1;
            check_v1_tax(&chain_state(n, h), &f)
        }),
        unit("v1/consecutive", 0, u64::MAX, |c| {
            let pre = c.free(2) == 0;
            let start = [0u128, 256_000, 10u128.pow(24), 10u128.pow(30) - 5000, (1 << 64) - 5000, u128::MAX - 20_000][c.free(6)];
            let cs = chain_state(Network::mainnet(), if pre { 5 } else { 50_000 });
            let chunk = c.free(if crate::thorough() { 200 } else { 20 }) as u128;
            let mut f = v1_contract(0);
            let mut acc = 0u64;
            for i in 0..1000u128 {
                f.payout = Currency::new(start.saturating_add(chunk * 1000 + i));
                acc = acc.rotate_left(3) ^ check_v1_tax(&cs, &f)?;
            }
            c.evals += 1000;
            Ok(acc)
        }),
        unit("v2/pairs", 0, u64::MAX, |c| {
            let ps: Vec<u128> = payouts().into_iter().step_by(if crate::thorough() { 1 } else { 5 }).chain([0, 1, u128::MAX, 10u128.pow(24)]).collect();
            let mut k = Ctx::new(&[], false);
            k.mode = 1;
            let mut f = v2::FileContract::g(&mut k);
            let cs = chain_state(Network::mainnet(), [0u64, 1_000_000][c.free(2)]);
            f.renter_output.value = Currency::new(ps[c.free(ps.len())]);
            let mut acc = 0u64;
            for &h in &ps {
                f.host_output.value = Currency::new(h);
                acc = acc.rotate_left(3) ^ check_v2_tax(&cs, &f)?;
                c.evals += 1;
            }
            c.sample(|| format!("renter output {} with every host output", cur_u128(&f.renter_output.value)));
            Ok(acc)
        }),
        // contracts and chain states that replace each other in place
        unit("in place", 0, u64::MAX, |c| {
            let ps = [0u128, 1, 256_000, 10u128.pow(24), 10u128.pow(24) + 1, 333_333_333_333_333_333_333_333, 123_456_789_012_345_678_901_234_567_890, u128::MAX / 2];
            let mut f = Box::new(v1_contract(ps[c.free(ps.len())]));
            let mut k = Ctx::new(&[], false);
            k.mode = 1;
            let mut g = Box::new(v2::FileContract::g(&mut k));
            g.renter_output.value = f.payout;
            g.host_output.value = Currency::new(7);
            let mut cs = Box::new(chain_state(Network::mainnet(), [5u64, 50_000][c.free(2)]));
            let (p, h) = (ps[c.free(ps.len())], [5u64, 50_000][c.free(2)]);
            let check = |cs: &ChainState, f: &v1::FileContract, g: &v2::FileContract| Ok::<u64, String>(check_v1_tax(cs, f)?.rotate_left(9) ^ check_v2_tax(cs, g)?);
            let a = check(&cs, &f, &g)?;
            cs.state.index.height = h;
            let b = check(&cs, &f, &g).map_err(|m| format!("after the chain advanced in place: {m}"))?;
            f.payout = Currency::new(p);
            g.host_output.value = Currency::new(p);
            c.evals += 6;
            Ok(a ^ b.rotate_left(20) ^ check(&cs, &f, &g).map_err(|m| format!("after the contract was changed in place: {m}"))?.rotate_left(40))
        }),
        unit("v2/contracts", 3, b(10_000_000), |c| {
            c.base();
            let f = v2::FileContract::g(c);
            c.evals += 1;
            check_v2_tax(&chain_state(Network::zen(), u64::g(c)), &f)
        }),
    ]
}

#[cfg(feature = "pure")]
pub fn steps(o: &mut Vec<Step>) {
    let m = Network::mainnet();
    let month = ref_month(&m);
    let f = m.hardfork_foundation.height;
    fn zen() -> Network {
        let mut z = Network::zen();
        z.initial_coinbase = Currency::siacoins(200_000);
        z
    }
    let all: [(&str, fn() -> Network, u64); 5] = [
        ("mainnet at 5", Network::mainnet, 5),
        ("mainnet at the Foundation fork", Network::mainnet, f - 1),
        ("mainnet a month later", Network::mainnet, f - 1 + month),
        ("mainnet far on", Network::mainnet, 1_000_000),
        ("zen at 5", zen, 5),
    ];
    for (n, net, h) in all {
        let checks: [(&str, fn(&ChainState) -> Result<u64, String>); 3] = [("rules", check_rules), ("reward", check_reward), ("subsidy", check_subsidy)];
        for (what, f) in checks {
            step(o, format!("{what} of {n}"), move || chain_state(net(), h), f);
        }
    }
    for h in [5u64, 50_000] {
        for p in [10u128.pow(24) + 7, 123_456_789_012_345_678_901_234_567_890] {
            let cs = chain_state(Network::mainnet(), h);
            o.push(Step { name: format!("v1 tax of {p} at {h}"), run: Box::new(move |pl| pl.with(v1_contract(p), |f| check_v1_tax(&cs, f))) });
            let cs = chain_state(Network::mainnet(), h);
            o.push(Step {
                name: format!("v2 tax of {p} at {h}"),
                run: Box::new(move |pl| {
                    let mut g: v2::FileContract = base(1);
                    g.renter_output.value = Currency::new(p);
                    pl.with(g, |g| check_v2_tax(&cs, g))
                }),
            });
        }
    }
}
// ---------------------------------------------------------------------- C32

/// The parameters of the public networks, written down independently.
struct Named {
    make: fn() -> Network,
    name: &'static str,
    coinbase: (u64, u64),
    target: [u8; 9],
    dev: (u64, &'static str, &'static str),
    tax: u64,
    proof: u64,
    oak: (u64, u64, i64),
    asic: (u64, i64, [u8; 9]),
    foundation: (u64, &'static str, &'static str),
    v2: (u64, u64),
}
const VOID: &str = "0000000000000000000000000000000000000000000000000000000000000000";
const NAMED: [Named; 3] = [
    Named {
        make: Network::mainnet,
        name: "mainnet",
        coinbase: (300_000, 30_000),
        target: [0, 0, 0, 0, 32, 0, 0, 0, 0],
        dev: (10_000, "7d0c44f7664e2d34e53efde0661a6f628ec9264785ae8e3cd7c973e8d190c3c9", "f371c70bce9eb8979cd5099f599ec4e4fcb14e0afcf31f9791e03e6496a4c0b3"),
        tax: 21_000,
        proof: 100_000,
        oak: (135_000, 139_000, 1_433_600_000),
        asic: (179_000, 120_000, [0, 0, 0, 0, 0, 0, 0, 0, 32]),
        foundation: (298_000, "053b2def3cbdd078c19d62ce2b4f0b1a3c5e0ffbeeff01280efb1f8969b2f5bb", "27c22a6c6e6645802a3b8fa0e5374657438ef12716d2205d3e866272de1b644d"),
        v2: (1_000_000, 1_025_000),
    },
    Named {
        make: Network::zen,
        name: "zen",
        coinbase: (300_000, 300_000),
        target: [0, 0, 0, 1, 0, 0, 0, 0, 0],
        dev: (1, VOID, VOID),
        tax: 2,
        proof: 5,
        oak: (10, 12, 1_673_600_000),
        asic: (20, 10_000, [0, 0, 0, 1, 0, 0, 0, 0, 0]),
        foundation: (30, "053b2def3cbdd078c19d62ce2b4f0b1a3c5e0ffbeeff01280efb1f8969b2f5bb", VOID),
        v2: (100_000, 102_000),
    },
    Named {
        make: Network::anagami,
        name: "anagami",
        coinbase: (300_000, 300_000),
        target: [0, 0, 0, 1, 0, 0, 0, 0, 0],
        dev: (1, VOID, VOID),
        tax: 2,
        proof: 5,
        oak: (10, 12, 1_724_284_800),
        asic: (20, 10_000, [0, 0, 0, 1, 0, 0, 0, 0, 0]),
        foundation: (30, "241352c83da002e61f57e96b14f3a5f8b5de22156ce83b753ea495e64f1affeb", VOID),
        v2: (2016, 2304),
    },
];
const SC: u128 = 1_000_000_000_000_000_000_000_000;
/// 365 * 24 * 6 / 12 blocks of ten minutes
const MONTH: u64 = 4380;
impl Named {
    fn network(&self) -> Network {
        let a = |s: &str| Address::new(hex::decode(s).unwrap().try_into().unwrap());
        let t = |b: &[u8; 9]| BlockID::new(std::array::from_fn(|i| if i < 9 { b[i] } else { 0 }));
        Network {
            name: self.name.to_string(),
            initial_coinbase: Currency::new(self.coinbase.0 as u128 * SC),
            minimum_coinbase: Currency::new(self.coinbase.1 as u128 * SC),
            initial_target: t(&self.target),
            block_interval: Duration::seconds(600),
            maturity_delay: 144,
            hardfork_dev_addr: HardforkDevAddr { height: self.dev.0, old_address: a(self.dev.1), new_address: a(self.dev.2) },
            hardfork_tax: HardforkTax { height: self.tax },
            hardfork_storage_proof: HardforkStorageProof { height: self.proof },
            hardfork_oak: HardforkOak { height: self.oak.0, fix_height: self.oak.1, genesis_timestamp: time::OffsetDateTime::from_unix_timestamp(self.oak.2).unwrap() },
            hardfork_asic: HardforkASIC { height: self.asic.0, oak_time: Duration::seconds(self.asic.1), oak_target: t(&self.asic.2) },
            hardfork_foundation: HardforkFoundation { height: self.foundation.0, primary_address: a(self.foundation.1), failsafe_address: a(self.foundation.2) },
            hardfork_v2: HardforkV2 { allow_height: self.v2.0, require_height: self.v2.1 },
        }
    }
    fn reward(&self, child: u64) -> u128 {
        let (i, m) = self.coinbase;
        (if child >= i - m { m } else { i - child }) as u128 * SC
    }
    /// what the blocks below a height create, without the subsidies
    fn issued(&self, below: u64) -> BigUint {
        let (i, m) = self.coinbase;
        let n = BigUint::from(below);
        let d = BigUint::from(below.min(i - m));
        // d blocks decline, the others get the minimum
        let two = BigUint::from(2u32);
        let declining = &d * i - (if d == BigUint::ZERO { BigUint::ZERO } else { (&d * (&d - 1u32)) / two });
        (declining + (n - &d) * m) * SC
    }
    /// subsidies due to blocks below a height, in months
    fn months(&self, below: u64) -> u64 {
        let f = self.foundation.0;
        if below <= f {
            0
        } else {
            12 + (below - 1 - f) / MONTH
        }
    }
}
/// Every rule at one height of a named network.
fn check_named(n: &Named, cs: &ChainState, f1: &v1::FileContract, f2: &v2::FileContract) -> Result<(u128, u64), String> {
    let h = cs.state.index.height;
    let child = h.wrapping_add(1);
    let at = || format!("{} at {}", n.name, checkpoint(h));
    let started = |f: u64| h >= f;
    let prefix: &[u8] = if started(n.v2.0) {
        &[2]
    } else if started(n.foundation.0) {
        &[1]
    } else if started(n.asic.0) {
        &[0]
    } else {
        &[]
    };
    if cs.replay_prefix() != prefix {
        return bad(format!("replay prefix {:?} on {}", cs.replay_prefix(), at()));
    }
    if cs.nonce_factor() != if child < n.asic.0 { 1 } else { 1009 } {
        return bad(format!("nonce factor {} on {}", cs.nonce_factor(), at()));
    }
    if cs.child_height() != child || (child < u64::MAX - 144 && cs.maturity_height() != child + 144) {
        return bad(format!("child height {}, maturity height {} on {}", cs.child_height(), cs.maturity_height(), at()));
    }
    if (cs.siafund_count(), cs.ancestor_depth(), cs.max_block_weight()) != (10_000, 1000, 2_000_000) {
        return bad(format!("{} siafunds, ancestor depth {}, block weight {} on {}", cs.siafund_count(), cs.ancestor_depth(), cs.max_block_weight(), at()));
    }
    let r = cur_u128(&cs.block_reward());
    if r != n.reward(child) {
        return bad(format!("the block reward is {r} on {}", at()));
    }
    let due = child >= n.foundation.0 && (child - n.foundation.0) % MONTH == 0;
    let months = match cs.foundation_subsidy() {
        None => 0,
        Some(o) => {
            if addr_bytes(&o.address) != addr_bytes(&cs.state.foundation_primary_address) {
                return bad(format!("the subsidy goes to {} on {}", o.address, at()));
            }
            let per = 30_000 * SC * MONTH as u128;
            if cur_u128(&o.value) % per != 0 {
                return bad(format!("the subsidy is {} on {}", cur_u128(&o.value), at()));
            }
            (cur_u128(&o.value) / per) as u64
        }
    };
    if months != if !due { 0 } else if child == n.foundation.0 { 12 } else { 1 } {
        return bad(format!("the subsidy is that of {months} months on {}", at()));
    }
    let p = cur_u128(&f1.payout);
    if BigUint::from(cur_u128(&f1.tax(cs))) != ref_v1_tax(p, child < n.tax) {
        return bad(format!("the tax of {p} is {} on {}", cur_u128(&f1.tax(cs)), at()));
    }
    check_v2_tax(cs, f2).map_err(|m| format!("{m} on {}", at()))?;
    Ok((r, months))
}
fn contracts() -> (v1::FileContract, v2::FileContract) {
    let mut k = Ctx::new(&[], false);
    k.mode = 1;
    let mut g = v2::FileContract::g(&mut k);
    // the regimes differ for this payout
    g.renter_output.value = Currency::new(123_456_789_012_345_678_901_234_567_890);
    g.host_output.value = Currency::new(999_999_999_999_999_999_999_999);
    (v1_contract(123_456_789_012_345_678_901_234_567_890), g)
}
pub fn c32() -> Vec<Unit> {
    vec![
        unit("parameters", 0, u64::MAX, |c| {
            let n = &NAMED[c.free(3)];
            let (got, want) = ((n.make)().j(), n.network().j());
            for (k, v) in want.as_object().unwrap() {
                if got.get(k) != Some(v) {
                    return bad(format!("{k} of {} is {} instead of {v}", n.name, got.get(k).cloned().unwrap_or_default()));
                }
            }
            // each call makes its own
            let mut a = (n.make)();
            a.hardfork_v2.allow_height = 7;
            a.name.push('x');
            if (n.make)().j() != want {
                return bad(format!("changing one {} changes the next", n.name));
            }
            c.sample(|| want.to_string());
            c.evals += 1;
            Ok(hash_bytes(want.to_string().as_bytes()))
        }),
        // the chain grows block by block from before its genesis; totals are compared with closed forms
        unit("blocks", 0, u64::MAX, |c| {
            let n = &NAMED[c.free(3)];
            let step = 10_000u64;
            let from = c.free(if crate::thorough() { 1000 } else { 120 }) as u64 * step;
            let mut cs = chain_state((n.make)(), 0);
            cs.state.foundation_primary_address = cs.network.hardfork_foundation.primary_address.clone();
            let (f1, f2) = contracts();
            let (mut total, mut months) = (BigUint::ZERO, 0u64);
            for child in from..from + step {
                cs.state.index.height = child.wrapping_sub(1);
                let (r, m) = check_named(n, &cs, &f1, &f2)?;
                total += r;
                months += m;
            }
            if total != n.issued(from + step) - n.issued(from) || months != n.months(from + step) - n.months(from) {
                return bad(format!("blocks {from} to {} of {} create {total} hastings and {months} months of subsidies", from + step - 1, n.name));
            }
            c.evals += step;
            c.sample(|| format!("{}: blocks {from} to {}: {total} hastings, {months} months of subsidies", n.name, from + step - 1));
            Ok(hash_bytes(&total.to_bytes_le()) ^ months << 40 ^ from)
        }),
        unit("boundaries", 0, u64::MAX, |c| {
            let k = c.free(3);
            let n = &NAMED[k];
            let (f1, f2) = contracts();
            let mut cs = chain_state((n.make)(), 0);
            let hs = heights(&cs.network);
            // any block may follow any other in the same memory
            let i = c.free(hs.len());
            for j in 0..hs.len() {
                cs.state.index.height = hs[j];
                check_named(n, &cs, &f1, &f2)?;
                cs.state.index.height = hs[i];
                check_named(n, &cs, &f1, &f2).map_err(|m| format!("after {}: {m}", checkpoint(hs[j])))?;
            }
            c.evals += 2 * hs.len() as u64;
            Ok(hs[i] ^ (k as u64) << 50)
        }),
    ]
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C20",
        level: MC,
        profiles: CW,
        units: c20,
        rule: "fork parameters and heights: all boundary combinations (each fork height -1, 0, +1, 0 and the largest integers) in both build profiles against the reference rules",
        assumptions: &[],
    },
    Prop {
        id: "C21",
        level: MC,
        profiles: CW,
        units: c21,
        rule: "coinbase parameters x every boundary height and a dense height range, in both build profiles, against exact integer arithmetic",
        assumptions: &[],
    },
    Prop {
        id: "C22",
        level: MC,
        profiles: CW,
        units: c22,
        rule: "fork heights, block intervals and all child heights near the schedule points and in dense ranges, in both build profiles, against exact integer arithmetic",
        assumptions: &[],
    },
    Prop {
        id: "C23",
        level: MC,
        profiles: CW,
        units: c23,
        rule: "payouts at all powers of two and ten, multiples of the rounding quantum, their neighbours and combinations x heights around the tax fork, in both build profiles, against exact rational arithmetic",
        assumptions: &[],
    },
    Prop {
        id: "C32",
        level: MC,
        profiles: CW,
        units: c32,
        rule: "mainnet, zen and anagami: every parameter; every height from before genesis to 1.2 million (10 million at the thorough tier) in order, with the totals of coinbases and subsidies against closed forms; every ordered pair of boundary heights in one chain state; in both build profiles",
        assumptions: &["the published parameters are those written down in harness/src/props/rules.rs"],
    },
];
