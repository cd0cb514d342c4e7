//! Networks and heights around their forks.
use sia::consensus::*;

/// Networks whose forks lie at different places, in and out of order.
pub const FORKS: [(u64, u64, u64); 7] = [
    (20, 30, 100),
    (0, 0, 0),
    (10, 10, 20),
    (179000, 298000, 1000000),
    (30, 20, 10),
    (5, 1 << 40, u64::MAX),
    (u64::MAX, u64::MAX, u64::MAX),
];
pub fn fork_network(k: usize) -> Network {
    let mut n = Network::mainnet();
    n.hardfork_asic.height = FORKS[k].0;
    n.hardfork_foundation.height = FORKS[k].1;
    n.hardfork_v2.allow_height = FORKS[k].2;
    n.hardfork_v2.require_height = FORKS[k].2.saturating_add(50);
    n
}
pub fn fork_heights(k: usize) -> Vec<u64> {
    let f = FORKS[k];
    let mut v = vec![0, u64::MAX];
    for h in [f.0, f.1, f.2] {
        for d in [h.wrapping_sub(2), h.wrapping_sub(1), h, h.wrapping_add(1)] {
            v.push(d);
        }
    }
    v.push(f.2.saturating_add(49));
    v.push(f.2.saturating_add(50));
    v.push(f.2.saturating_add(51));
    v.sort();
    v.dedup();
    v
}
