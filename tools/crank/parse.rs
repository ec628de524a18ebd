use super::*;

/// A queue of `cap` events, `count` of them live from `head` on; the n-th oldest belongs to owner n.
fn queue(cap: usize, head: usize, count: usize) -> Vec<u64> {
    let hw = size_of::<EventQueueHeader>() / 8;
    let ew = size_of::<Event>() / 8;
    let mut w = vec![0u64; hw + cap * ew];
    w[0] = (AccountFlag::Initialized | AccountFlag::EventQueue).bits();
    w[1] = head as u64;
    w[2] = count as u64;
    for n in 0..count {
        let at = hw + (head + n) % cap * ew;
        let e: &mut [u64] = &mut w[at..at + ew];
        e[0] = 1;
        // The owner follows flags, three amounts and the order id.
        e[6] = n as u64 + 1;
    }
    w
}

#[test]
fn oldest_first() {
    for cap in [4usize, 7] {
        for head in 0..cap {
            for count in 0..=cap {
                let w = queue(cap, head, count);
                let (_, a, b) = parse_event_queue(&w).unwrap();
                let got: Vec<u64> = a.iter().chain(b).map(|e| { let o = e.owner; o[0] }).collect();
                let want: Vec<u64> = (1..=count as u64).collect();
                assert_eq!(got, want, "events of a queue of {} with head {} and {} in it", cap, head, count);
            }
        }
    }
}
