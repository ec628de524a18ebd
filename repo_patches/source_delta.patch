From 72b13639bffa4538b5781ea7373408f18cf1f33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:46 +0000
Subject: [PATCH 1/8] fix: require the market account itself to be rent-exempt
 in InitializeMarket

The rent check skipped account 0, the market, so a market could be created
whose state account is later reclaimed, with customer funds in its vaults.
---
 dex/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dex/src/state.rs b/dex/src/state.rs
index d42f800..942ed20 100644
--- a/dex/src/state.rs
+++ b/dex/src/state.rs
@@ -1636,7 +1636,7 @@ pub(crate) mod account_parser {
                 let rent = Rent::get()?;
 
                 let end_idx = accounts.len() - remaining_accounts.len() - 1;
-                for account in &accounts[1..end_idx] {
+                for account in &accounts[..end_idx] {
                     let data_len = account.data_len();
                     let lamports = account.lamports();
                     check_assert!(rent.is_exempt(lamports, data_len))?;
-- 
2.43.0


From b24a7cb60e6aa0fac095aabb0c58842421525a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:52 +0000
Subject: [PATCH 2/8] fix: reject a market whose bids and asks are the same
 account

InitializeMarket initialised such an account twice, leaving it flagged as
asks only, so that every later order, cancel or crank on the market fails.
---
 dex/src/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dex/src/state.rs b/dex/src/state.rs
index 942ed20..8269200 100644
--- a/dex/src/state.rs
+++ b/dex/src/state.rs
@@ -3531,6 +3531,7 @@ impl State {
             seq_num: 0,
         };
         // initialize orderbook storage
+        check_assert!(bids.key != asks.key)?;
         for (flag, account) in &[(AccountFlag::Bids, bids), (AccountFlag::Asks, asks)] {
             let mut ob_data = account.try_borrow_mut_data().unwrap();
             let ob_view = init_account_padding(&mut ob_data)?;
-- 
2.43.0


From a4b3f0eced679ee59f5c1b626a19552190805bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:07 +0000
Subject: [PATCH 3/8] fix: reject a pool that lists the same vault twice

InitializePool accepted the same token account as two of the pool's vaults.
A redemption then pays the holder's share of that vault once per listing, so
the first to redeem takes the assets of the holders who redeem later.
---
 pool/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pool/src/lib.rs b/pool/src/lib.rs
index 04e041d..20af8b9 100644
--- a/pool/src/lib.rs
+++ b/pool/src/lib.rs
@@ -195,6 +195,13 @@ impl<'a, 'b, P: Pool> PoolProcessor<'a, 'b, P> {
             admin_key: None,
             custom_state: vec![],
         };
+        // A vault listed twice would pay out its balance twice on redemption.
+        for (i, vault_account) in pool_vaults.iter().enumerate() {
+            if pool_vaults[..i].iter().any(|a| a.key == vault_account.key) {
+                msg!("Duplicate pool vault");
+                return Err(ProgramError::InvalidArgument);
+            }
+        }
         let context = PoolContext::new(self.program_id, self.accounts, &state, &self.request)?;
 
         context.check_rent_exemption(context.pool_account)?;
-- 
2.43.0


From e6260434c11d54e8bd7b8dc712ab2d5671af33d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:03 +0000
Subject: [PATCH 4/8] fix: keep cranking when reading the queues fails

A failed or empty RPC read of the event or request queue made
consume_events_loop return, which ends the crank: one dropped connection
stopped it for good. Log the failure and try again on the next round.
---
 dex/crank/src/lib.rs | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index d33315f..7e138f0 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -540,8 +540,15 @@ fn consume_events_loop(
 
         let loop_start = std::time::Instant::now();
         let start_time = std::time::Instant::now();
-        let event_q_value_and_context =
-            client.get_account_with_commitment(&market_keys.event_q, CommitmentConfig::recent())?;
+        let event_q_value_and_context = match client
+            .get_account_with_commitment(&market_keys.event_q, CommitmentConfig::recent())
+        {
+            Ok(response) => response,
+            Err(err) => {
+                error!("Failed to read the event queue: {:?}", err);
+                continue;
+            }
+        };
         let event_q_slot = event_q_value_and_context.context.slot;
         let max_slot_height = max_slot_height_mutex.lock().unwrap();
         if event_q_slot <= *max_slot_height {
@@ -552,15 +559,23 @@ fn consume_events_loop(
             continue;
         }
         drop(max_slot_height);
-        let event_q_data = event_q_value_and_context
-            .value
-            .ok_or(format_err!("Failed to retrieve account"))?
-            .data;
-        let req_q_data = client
-            .get_account_with_commitment(&market_keys.req_q, CommitmentConfig::recent())?
-            .value
-            .ok_or(format_err!("Failed to retrieve account"))?
-            .data;
+        let event_q_data = match event_q_value_and_context.value {
+            Some(account) => account.data,
+            None => {
+                error!("Failed to retrieve the event queue");
+                continue;
+            }
+        };
+        let req_q_data = match client
+            .get_account_with_commitment(&market_keys.req_q, CommitmentConfig::recent())
+            .map(|response| response.value)
+        {
+            Ok(Some(account)) => account.data,
+            result => {
+                error!("Failed to read the request queue: {:?}", result);
+                continue;
+            }
+        };
         let inner: Cow<[u64]> = remove_dex_account_padding(&event_q_data)?;
         let (_header, seg0, seg1) = parse_event_queue(&inner)?;
         let req_inner: Cow<[u64]> = remove_dex_account_padding(&req_q_data)?;
-- 
2.43.0


From cc57b616c31dc7151ada4c6726bd95e06359133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:03 +0000
Subject: [PATCH 5/8] fix: parse the request queue as a request queue in the
 crank

The crank read the request queue as if it held events: its length came out
wrong, and a queue of a single request (smaller than one event) made the
crank exit with an error.
---
 dex/crank/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index 7e138f0..57cdec6 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -579,7 +579,7 @@ fn consume_events_loop(
         let inner: Cow<[u64]> = remove_dex_account_padding(&event_q_data)?;
         let (_header, seg0, seg1) = parse_event_queue(&inner)?;
         let req_inner: Cow<[u64]> = remove_dex_account_padding(&req_q_data)?;
-        let (_req_header, req_seg0, req_seg1) = parse_event_queue(&req_inner)?;
+        let (_req_header, req_seg0, req_seg1) = parse_req_queue(&req_inner)?;
         let event_q_len = seg0.len() + seg1.len();
         let req_q_len = req_seg0.len() + req_seg1.len();
         info!(
-- 
2.43.0


From 6d4bec1a7d9c145cc760ea0e10a7f0104fbedd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:16 +0000
Subject: [PATCH 6/8] fix: consume_events_instruction takes the accounts of the
 first events

It sorted all owners in the queue and kept the lowest 32. With more owners
than that the first event's account could be left out, and then no event
can be consumed, ever: the queue is stuck for this client.
---
 dex/crank/src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index 57cdec6..f382be4 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -808,12 +808,16 @@ pub fn consume_events_instruction(
     } else {
         info!("Total event queue length: {}", seg0.len() + seg1.len());
     }
+    // The accounts of the first events in the queue: without them nothing can be consumed.
     let accounts = seg0.iter().chain(seg1.iter()).map(|event| event.owner);
-    let mut orders_accounts: Vec<_> = accounts.collect();
-    orders_accounts.sort_unstable();
-    orders_accounts.dedup();
-    // todo: Shuffle the accounts before truncating, to avoid favoring low sort order accounts
-    orders_accounts.truncate(32);
+    let mut used_accounts = BTreeSet::new();
+    for account in accounts {
+        used_accounts.insert(account);
+        if used_accounts.len() >= 32 {
+            break;
+        }
+    }
+    let orders_accounts: Vec<_> = used_accounts.into_iter().collect();
     info!("Number of unique order accounts: {}", orders_accounts.len());
 
     let mut account_metas = Vec::with_capacity(orders_accounts.len() + 4);
-- 
2.43.0


From a547be5bd07e3a507586faf2f323f0cf8a93ec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:16 +0000
Subject: [PATCH 7/8] fix: consume events transactions of the crank fit in a
 packet

32 open orders accounts (the default) make the transaction larger than the
1232 bytes a transaction may have, so with that many owners in the queue
every attempt was refused and the crank never got any further.
---
 dex/crank/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index f382be4..276e2f9 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -56,6 +56,9 @@ use serum_dex::state::Request;
 use serum_dex::state::RequestQueueHeader;
 use serum_dex::state::{AccountFlag, Market, MarketState, MarketStateV2};
 
+/// The open orders accounts that fit in one consume events transaction (1232 bytes).
+const MAX_CONSUME_ACCOUNTS: usize = 24;
+
 pub fn with_logging<F: FnOnce()>(_to: &str, fnc: F) {
     fnc();
 }
@@ -285,7 +288,7 @@ pub fn start(opts: Opts) -> Result<()> {
                 &pc_wallet,
                 num_workers,
                 events_per_worker,
-                num_accounts.unwrap_or(32),
+                num_accounts.unwrap_or(MAX_CONSUME_ACCOUNTS),
                 max_q_length.unwrap_or(1),
                 max_wait_for_events_delay.unwrap_or(60),
             )?;
@@ -813,7 +816,7 @@ pub fn consume_events_instruction(
     let mut used_accounts = BTreeSet::new();
     for account in accounts {
         used_accounts.insert(account);
-        if used_accounts.len() >= 32 {
+        if used_accounts.len() >= MAX_CONSUME_ACCOUNTS {
             break;
         }
     }
-- 
2.43.0


From babd73a5256423345622e5893c90ed039f7e06bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:07 +0000
Subject: [PATCH 8/8] hooks: seam for time, threads, randomness and RPC in the
 crank (cfg serum_sim)

---
 common/src/client/mod.rs  |   2 +
 common/src/client/rpc.rs  |   3 +
 common/src/client/seam.rs |  41 +++++++++++
 dex/crank/src/lib.rs      |  37 +++++-----
 dex/crank/src/seam.rs     | 147 ++++++++++++++++++++++++++++++++++++++
 5 files changed, 214 insertions(+), 16 deletions(-)
 create mode 100644 common/src/client/seam.rs
 create mode 100644 dex/crank/src/seam.rs

diff --git a/common/src/client/mod.rs b/common/src/client/mod.rs
index 24496c2..c50f500 100644
--- a/common/src/client/mod.rs
+++ b/common/src/client/mod.rs
@@ -2,6 +2,8 @@ use anyhow::Result;
 use std::str::FromStr;
 
 pub mod rpc;
+#[cfg(serum_sim)]
+pub mod seam;
 
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub enum Cluster {
diff --git a/common/src/client/rpc.rs b/common/src/client/rpc.rs
index d83e7fa..c46fcc2 100644
--- a/common/src/client/rpc.rs
+++ b/common/src/client/rpc.rs
@@ -1,4 +1,7 @@
+#[cfg(serum_sim)]
+use super::seam::OsRng;
 use anyhow::{anyhow, Result};
+#[cfg(not(serum_sim))]
 use rand::rngs::OsRng;
 use solana_client::rpc_client::RpcClient;
 use solana_client::rpc_config::RpcSendTransactionConfig;
diff --git a/common/src/client/seam.rs b/common/src/client/seam.rs
new file mode 100644
index 0000000..93203fb
--- /dev/null
+++ b/common/src/client/seam.rs
@@ -0,0 +1,41 @@
+//! A repeatable source of key material for simulations (`--cfg serum_sim`); never part of a normal build.
+use rand::{CryptoRng, Error, RngCore};
+use std::cell::Cell;
+
+thread_local! {
+    static STATE: Cell<u64> = Cell::new(0);
+}
+
+/// Seeds the keys generated on this thread.
+pub fn seed(seed: u64) {
+    STATE.with(|s| s.set(seed));
+}
+
+pub struct OsRng;
+
+impl RngCore for OsRng {
+    fn next_u32(&mut self) -> u32 {
+        self.next_u64() as u32
+    }
+    fn next_u64(&mut self) -> u64 {
+        STATE.with(|s| {
+            s.set(s.get().wrapping_add(0x9e3779b97f4a7c15));
+            let z = s.get();
+            let z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
+            let z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
+            z ^ (z >> 31)
+        })
+    }
+    fn fill_bytes(&mut self, dest: &mut [u8]) {
+        for chunk in dest.chunks_mut(8) {
+            let word = self.next_u64().to_le_bytes();
+            chunk.copy_from_slice(&word[..chunk.len()]);
+        }
+    }
+    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
+        self.fill_bytes(dest);
+        Ok(())
+    }
+}
+
+impl CryptoRng for OsRng {}
diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index 276e2f9..c21e735 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -8,15 +8,13 @@ use std::convert::identity;
 use std::mem::size_of;
 use std::num::NonZeroU64;
 use std::sync::{Arc, Mutex};
-use std::time::SystemTime;
-use std::{thread, time};
+use std::time;
 
 use anyhow::{format_err, Result};
 use clap::Parser;
 use debug_print::debug_println;
 use enumflags2::BitFlags;
 use log::{error, info};
-use rand::rngs::OsRng;
 use safe_transmute::{
     guard::SingleManyGuard,
     to_bytes::{transmute_one_to_bytes, transmute_to_bytes},
@@ -37,6 +35,12 @@ use solana_sdk::transaction::Transaction;
 use spl_token::instruction as token_instruction;
 use warp::Filter;
 
+#[cfg(not(serum_sim))]
+mod seam;
+#[cfg(serum_sim)]
+pub mod seam;
+use seam::{Instant, OsRng, SystemTime, ThreadPool};
+
 use serum_common::client::rpc::{
     create_and_init_mint, create_token_account, mint_to_new_account, send_txn, simulate_transaction,
 };
@@ -78,7 +82,7 @@ pub struct Opts {
 
 impl Opts {
     fn client(&self) -> RpcClient {
-        RpcClient::new(self.cluster.url().to_string())
+        seam::rpc_client(self.cluster.url())
     }
 }
 
@@ -278,6 +282,7 @@ pub fn start(opts: Opts) -> Result<()> {
             ref max_q_length,
             ref max_wait_for_events_delay,
         } => {
+            #[cfg(not(serum_sim))]
             init_logger(log_directory);
             consume_events_loop(
                 &opts,
@@ -532,17 +537,17 @@ fn consume_events_loop(
     let client = opts.client();
     let market_keys = get_keys_for_market(&client, &program_id, &market)?;
     info!("{:#?}", market_keys);
-    let pool = threadpool::ThreadPool::new(num_workers);
+    let pool = ThreadPool::new(num_workers);
     let max_slot_height_mutex = Arc::new(Mutex::new(0_u64));
-    let mut last_cranked_at = std::time::Instant::now()
+    let mut last_cranked_at = Instant::now()
         .checked_sub(std::time::Duration::from_secs(max_wait_for_events_delay))
-        .unwrap_or(std::time::Instant::now());
+        .unwrap_or(Instant::now());
 
     loop {
-        thread::sleep(time::Duration::from_millis(1000));
+        seam::sleep(time::Duration::from_millis(1000));
 
-        let loop_start = std::time::Instant::now();
-        let start_time = std::time::Instant::now();
+        let loop_start = Instant::now();
+        let start_time = Instant::now();
         let event_q_value_and_context = match client
             .get_account_with_commitment(&market_keys.event_q, CommitmentConfig::recent())
         {
@@ -650,7 +655,7 @@ fn consume_events_loop(
                 account_metas.push(AccountMeta::new(**pubkey, false));
             }
             debug_println!("Number of workers: {}", num_workers);
-            let end_time = std::time::Instant::now();
+            let end_time = Instant::now();
             info!(
                 "Fetching {} events from the queue took {}",
                 event_q_len,
@@ -678,7 +683,7 @@ fn consume_events_loop(
                 });
             }
             pool.join();
-            last_cranked_at = std::time::Instant::now();
+            last_cranked_at = Instant::now();
             info!(
                 "Total loop time took {}",
                 last_cranked_at.duration_since(loop_start).as_millis()
@@ -698,7 +703,7 @@ fn consume_events_wrapper(
     max_slot_height_mutex: Arc<Mutex<u64>>,
     slot: u64,
 ) {
-    let start = std::time::Instant::now();
+    let start = Instant::now();
     let result = consume_events_once(
         &client,
         program_id,
@@ -734,7 +739,7 @@ pub fn consume_events_once(
     _thread_number: usize,
     event_q: Pubkey,
 ) -> Result<Signature> {
-    let _start = std::time::Instant::now();
+    let _start = Instant::now();
     let instruction_data: Vec<u8> = MarketInstruction::ConsumeEvents(to_consume as u16).pack();
     let instruction = Instruction {
         program_id: *program_id,
@@ -744,7 +749,7 @@ pub fn consume_events_once(
     let random_instruction = solana_sdk::system_instruction::transfer(
         &payer.pubkey(),
         &payer.pubkey(),
-        rand::random::<u64>() % 10000 + 1,
+        seam::random::<u64>() % 10000 + 1,
     );
     let recent_hash = client.get_latest_blockhash()?;
     let txn = Transaction::new_signed_with_payer(
@@ -989,7 +994,7 @@ fn whole_shebang(client: &RpcClient, program_id: &Pubkey, payer: &Keypair) -> Re
     )?;
 
     debug_println!("Consuming events in 15s ...");
-    std::thread::sleep(std::time::Duration::new(15, 0));
+    seam::sleep(std::time::Duration::new(15, 0));
     consume_events(
         client,
         program_id,
diff --git a/dex/crank/src/seam.rs b/dex/crank/src/seam.rs
new file mode 100644
index 0000000..79daf3a
--- /dev/null
+++ b/dex/crank/src/seam.rs
@@ -0,0 +1,147 @@
+//! What the crank takes from outside: time, threads, randomness and the RPC connection.
+//!
+//! The real thing by default. With `--cfg serum_sim` a simulation supplies them, so that it decides every
+//! schedule, delay and failure.
+
+#[cfg(not(serum_sim))]
+mod imp {
+    pub use rand::random;
+    pub use rand::rngs::OsRng;
+    use solana_client::rpc_client::RpcClient;
+    pub use std::thread::sleep;
+    pub use std::time::{Instant, SystemTime};
+    pub use threadpool::ThreadPool;
+
+    pub fn rpc_client(url: &str) -> RpcClient {
+        RpcClient::new(url.to_string())
+    }
+}
+
+#[cfg(serum_sim)]
+mod imp {
+    pub use serum_common::client::seam::OsRng;
+    use solana_client::rpc_client::RpcClient;
+    use std::cell::RefCell;
+    use std::sync::Arc;
+    use std::time::Duration;
+
+    pub type Job = Box<dyn FnOnce() + Send>;
+
+    /// The simulation as one simulated thread sees it.
+    pub trait Host {
+        fn rpc_client(&self, url: &str) -> RpcClient;
+        /// Time since some fixed point, never going back.
+        fn uptime(&self) -> Duration;
+        /// Time since the Unix epoch.
+        fn unix_time(&self) -> Duration;
+        fn sleep(&self, duration: Duration);
+        fn random(&self) -> u64;
+        fn new_pool(&self, num_threads: usize) -> usize;
+        fn execute(&self, pool: usize, job: Job);
+        fn join(&self, pool: usize);
+    }
+
+    thread_local! {
+        static HOST: RefCell<Option<Arc<dyn Host>>> = RefCell::new(None);
+    }
+
+    /// Puts the current thread into a simulation.
+    pub fn enter(host: Arc<dyn Host>) {
+        HOST.with(|h| *h.borrow_mut() = Some(host));
+    }
+
+    fn host() -> Arc<dyn Host> {
+        HOST.with(|h| h.borrow().clone())
+            .expect("this thread is not part of a simulation")
+    }
+
+    pub fn rpc_client(url: &str) -> RpcClient {
+        host().rpc_client(url)
+    }
+
+    pub fn sleep(duration: Duration) {
+        host().sleep(duration)
+    }
+
+    pub fn random<T: From<u64>>() -> T {
+        host().random().into()
+    }
+
+    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
+    pub struct Instant(Duration);
+
+    impl Instant {
+        pub fn now() -> Instant {
+            Instant(host().uptime())
+        }
+        pub fn duration_since(&self, earlier: Instant) -> Duration {
+            self.0.saturating_sub(earlier.0)
+        }
+        pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
+            self.duration_since(earlier)
+        }
+        pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
+            self.0.checked_sub(earlier.0)
+        }
+        pub fn elapsed(&self) -> Duration {
+            Instant::now().duration_since(*self)
+        }
+        pub fn checked_sub(&self, duration: Duration) -> Option<Instant> {
+            self.0.checked_sub(duration).map(Instant)
+        }
+        pub fn checked_add(&self, duration: Duration) -> Option<Instant> {
+            self.0.checked_add(duration).map(Instant)
+        }
+    }
+
+    impl std::ops::Add<Duration> for Instant {
+        type Output = Instant;
+        fn add(self, duration: Duration) -> Instant {
+            Instant(self.0 + duration)
+        }
+    }
+
+    impl std::ops::Sub<Duration> for Instant {
+        type Output = Instant;
+        fn sub(self, duration: Duration) -> Instant {
+            Instant(self.0 - duration)
+        }
+    }
+
+    impl std::ops::Sub<Instant> for Instant {
+        type Output = Duration;
+        fn sub(self, earlier: Instant) -> Duration {
+            self.duration_since(earlier)
+        }
+    }
+
+    #[derive(Clone, Copy, Debug)]
+    pub struct SystemTime(Duration);
+
+    impl SystemTime {
+        pub const UNIX_EPOCH: SystemTime = SystemTime(Duration::from_secs(0));
+        pub fn now() -> SystemTime {
+            SystemTime(host().unix_time())
+        }
+        pub fn duration_since(&self, earlier: SystemTime) -> Result<Duration, ()> {
+            self.0.checked_sub(earlier.0).ok_or(())
+        }
+    }
+
+    pub struct ThreadPool(usize);
+
+    impl ThreadPool {
+        pub fn new(num_threads: usize) -> ThreadPool {
+            assert!(num_threads >= 1);
+            ThreadPool(host().new_pool(num_threads))
+        }
+        pub fn execute<F: FnOnce() + Send + 'static>(&self, job: F) {
+            host().execute(self.0, Box::new(job))
+        }
+        pub fn join(&self) {
+            host().join(self.0)
+        }
+    }
+}
+
+pub use imp::*;
-- 
2.43.0

