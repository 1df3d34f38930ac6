From a6c730a7fc32f2491313ec3d015ef3501b79404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 01/21] verif hook: expose the work queue under
 cfg(libmcaptcha_verif)

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8b85500..8e08672 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -204,6 +204,13 @@ pub mod system;
 #[cfg(feature = "full")]
 mod utils;
 
+/// Hook for the verification harness: the work queue is private otherwise
+#[doc(hidden)]
+#[cfg(all(feature = "full", libmcaptcha_verif))]
+pub mod verif {
+    pub use crate::queue::{Manager, Runnable};
+}
+
 #[cfg(feature = "full")]
 pub use crate::cache::hashcache::HashCache;
 #[cfg(feature = "full")]
-- 
2.43.0


From fdd56f8ebbd7b9339170c9cf99fd1f847731d544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 02/21] fix: report one verdict per submitted work

A work failing a check reported false and went on: up to three messages into
a channel of capacity two, which blocks the worker for as long as the
submitter keeps its receiver, and with it every other submission.
---
 src/pow.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pow.rs b/src/pow.rs
index bf4839d..ed51518 100644
--- a/src/pow.rs
+++ b/src/pow.rs
@@ -103,12 +103,14 @@ impl QueuedWork {
             if let Err(e) = self.tx.send(false) {
                 debug!("[ERROR] unable to send work result: {e}");
             }
+            return;
         }
 
         if !self.pow.is_valid_proof(&self.work, &self.string) {
             if let Err(e) = self.tx.send(false) {
                 debug!("[ERROR] unable to send work result: {e}");
             }
+            return;
         }
 
         if let Err(e) = self.tx.send(true) {
-- 
2.43.0


From 38be3aba78c776c47c3610891b5d1f8cd7e74cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 03/21] fix: keep only addresses with waiting work in the
 scheduling order

The round robin went over every address ever seen, and an address without
waiting work used up the runner's turn: work of other addresses was left
waiting with all runners free. The addresses were never dropped either, so
that after queue_length distinct addresses every submission was refused.
---
 src/queue.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/queue.rs b/src/queue.rs
index 918eb0c..8d4de04 100644
--- a/src/queue.rs
+++ b/src/queue.rs
@@ -90,13 +90,12 @@ enum InnerManagerMessage {
 }
 
 type InnerManagerQueue = HashMap<Rc<String>, VecDeque<Box<dyn Runnable>>>;
-type InnerManagerIP = Vec<Rc<String>>;
+type InnerManagerIP = VecDeque<Rc<String>>;
 
 struct InnerManager {
     queues: InnerManagerQueue,
     runners: HashMap<usize, RunnerThread>,
     ips: InnerManagerIP,
-    currnet_index: usize,
     queue_length: usize,
 }
 
@@ -116,18 +115,17 @@ impl Drop for InnerManager {
 impl InnerManager {
     fn dispatch_to(&mut self, name: usize) {
         if let Some(r) = self.runners.get(&name) {
-            let ip_vec_len = { self.ips.len() };
-
-            if self.currnet_index < ip_vec_len - 1 {
-                self.currnet_index += 1
-            } else {
-                self.currnet_index = 0;
-            }
-
-            let ip = self.ips.get(self.currnet_index).unwrap();
-            let ip_queue = self.queues.get_mut(ip).unwrap();
-            if let Some(work) = ip_queue.pop_front() {
-                r.tx.send(Message::Prove(work)).unwrap();
+            // next address in turn; only addresses with waiting work are in line
+            if let Some(ip) = self.ips.pop_front() {
+                let ip_queue = self.queues.get_mut(&ip).unwrap();
+                if let Some(work) = ip_queue.pop_front() {
+                    r.tx.send(Message::Prove(work)).unwrap();
+                }
+                if ip_queue.is_empty() {
+                    self.queues.remove(&ip);
+                } else {
+                    self.ips.push_back(ip);
+                }
             }
         }
     }
@@ -148,12 +146,11 @@ impl InnerManager {
             runners.insert(name, RunnerThread::spawn(name, tx.clone()));
         }
         let queues = HashMap::default();
-        let ips = Vec::default();
+        let ips = VecDeque::default();
         InnerManager {
             queues,
             runners,
             ips,
-            currnet_index: 0,
             queue_length,
         }
     }
@@ -172,7 +169,7 @@ impl InnerManager {
         queue.push_back(job);
         let ip = Rc::new(ip);
         self.queues.insert(ip.clone(), queue);
-        self.ips.push(ip);
+        self.ips.push_back(ip);
         self.dispatch();
         Ok(())
     }
-- 
2.43.0


From ff7c25b512120e1d1dbadff575925df0ef0619b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 04/21] fix: hand work to free runners only

Every submission was pushed to the runners' own unbounded channels right
away, busy or not: work waited behind a busy runner with others free, the
addresses did not take turns, and the queue never filled up.
---
 src/queue.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/queue.rs b/src/queue.rs
index 8d4de04..123afb6 100644
--- a/src/queue.rs
+++ b/src/queue.rs
@@ -35,6 +35,8 @@ enum Message {
 struct RunnerThread {
     tx: Sender<Message>,
     thread: Option<JoinHandle<()>>,
+    /// true while the runner works on a job handed over to it
+    busy: bool,
 }
 
 pub trait Runnable: Send + Sync {
@@ -46,7 +48,11 @@ impl RunnerThread {
         let (tx, rx) = crossbeam_channel::unbounded();
 
         let thread = Some(thread::spawn(move || Self::run(name, &rx, &tx_manager)));
-        Self { tx, thread }
+        Self {
+            tx,
+            thread,
+            busy: false,
+        }
     }
 
     fn run(name: usize, rx: &Receiver<Message>, tx_manager: &Sender<InnerManagerMessage>) {
@@ -114,12 +120,16 @@ impl Drop for InnerManager {
 
 impl InnerManager {
     fn dispatch_to(&mut self, name: usize) {
-        if let Some(r) = self.runners.get(&name) {
+        if let Some(r) = self.runners.get_mut(&name) {
+            if r.busy {
+                return;
+            }
             // next address in turn; only addresses with waiting work are in line
             if let Some(ip) = self.ips.pop_front() {
                 let ip_queue = self.queues.get_mut(&ip).unwrap();
                 if let Some(work) = ip_queue.pop_front() {
                     r.tx.send(Message::Prove(work)).unwrap();
+                    r.busy = true;
                 }
                 if ip_queue.is_empty() {
                     self.queues.remove(&ip);
@@ -130,6 +140,13 @@ impl InnerManager {
         }
     }
 
+    fn runner_done(&mut self, name: usize) {
+        if let Some(r) = self.runners.get_mut(&name) {
+            r.busy = false;
+        }
+        self.dispatch_to(name);
+    }
+
     fn dispatch(&mut self) {
         for name in 0..self.runners.len() {
             if !self.runners.contains_key(&name) {
@@ -182,7 +199,7 @@ impl InnerManager {
                         drop(im);
                         break;
                     }
-                    InnerManagerMessage::Dispatch(name) => im.dispatch_to(name),
+                    InnerManagerMessage::Dispatch(name) => im.runner_done(name),
                     InnerManagerMessage::Schedule(job) => {
                         let res = im.schedule(job.ip, job.job);
                         let _ = job.tx.send(res);
-- 
2.43.0


From 37ee787ff24d86b8d25da363f03f704e5cff1e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 05/21] fix: Defense::visitor_threshold returns the visitor
 threshold

It returned the difficulty factor of the current level.
---
 src/defense.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/defense.rs b/src/defense.rs
index fd65df0..6d6e8c0 100644
--- a/src/defense.rs
+++ b/src/defense.rs
@@ -218,7 +218,7 @@ impl Defense {
 
     /// Get current level's  visitor threshold
     pub fn visitor_threshold(&self) -> u32 {
-        self.levels[self.current_visitor_threshold].difficulty_factor
+        self.levels[self.current_visitor_threshold].visitor_threshold
     }
 }
 
-- 
2.43.0


From 14d66d225bc1230c3723eb617ae09ebef7e94c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 06/21] fix: don't alternate between two levels under constant
 traffic

With a visitor count between two thresholds every other visitor loosened the
defense and got the lower level's difficulty factor.
---
 src/defense.rs  | 7 +++++++
 src/mcaptcha.rs | 8 ++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/defense.rs b/src/defense.rs
index 6d6e8c0..f3f44b6 100644
--- a/src/defense.rs
+++ b/src/defense.rs
@@ -211,6 +211,13 @@ impl Defense {
         self.current_visitor_threshold = 0;
     }
 
+    /// Get the level below the current one, if there is one
+    pub(crate) fn lower_level(&self) -> Option<&Level> {
+        self.current_visitor_threshold
+            .checked_sub(1)
+            .map(|i| &self.levels[i])
+    }
+
     /// Get current level's  visitor threshold
     pub fn current_level(&self) -> &Level {
         &self.levels[self.current_visitor_threshold]
diff --git a/src/mcaptcha.rs b/src/mcaptcha.rs
index afff229..1018579 100644
--- a/src/mcaptcha.rs
+++ b/src/mcaptcha.rs
@@ -95,8 +95,12 @@ impl MCaptcha {
         let current_level = self.defense.current_level();
         if self.visitor_threshold > current_level.visitor_threshold {
             self.defense.tighten_up();
-        } else {
-            self.defense.loosen_up();
+        } else if let Some(lower) = self.defense.lower_level() {
+            // the traffic has to fit the lower level, or the next visitor
+            // would only tighten up again
+            if self.visitor_threshold <= lower.visitor_threshold {
+                self.defense.loosen_up();
+            }
         }
     }
 
-- 
2.43.0


From 20c9a2a27e22bc3ea68472e1e9b957029bc69480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 07/21] fix: cleanup survives counters that are stopped while
 it runs

It unwrapped the counter's reply: removing or replacing a site during a
cleanup made the master actor panic and took down every site with it.
---
 src/master/embedded/master.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index 1a34183..f6b08a8 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -171,10 +171,15 @@ impl Handler<CleanUp> for Master {
         info!("init master actor cleanup up");
         let task = async move {
             for (id, (new, addr)) in sites.iter() {
-                let visitor_count = addr.send(GetCurrentVisitorCount).await.unwrap();
+                // the counter may have been stopped since the sites were listed: removed,
+                // replaced or cleaned up by somebody else
+                let visitor_count = match addr.send(GetCurrentVisitorCount).await {
+                    Ok(count) => count,
+                    Err(_) => continue,
+                };
                 println!("{}", visitor_count);
                 if visitor_count == 0 && new.is_some() {
-                    addr.send(Stop).await.unwrap();
+                    let _ = addr.send(Stop).await;
                     master.send(RemoveCaptcha(id.to_owned())).await.unwrap();
                     println!("cleaned up");
                 }
-- 
2.43.0


From 1ab141b3e6e833fa707254292cdc0256faffd1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 08/21] fix: cleanup removes the very counter it found idle

It asked for the visitor count, stopped the counter and then removed its name
in three steps: a visitor arriving in between was lost, and a site that was
renamed or added again in between was removed, or left behind stopped.
---
 src/master/embedded/counter.rs | 17 +++++++++++++
 src/master/embedded/master.rs  | 45 +++++++++++++++++++++++++---------
 2 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/src/master/embedded/counter.rs b/src/master/embedded/counter.rs
index f5a2ed3..9c03f66 100644
--- a/src/master/embedded/counter.rs
+++ b/src/master/embedded/counter.rs
@@ -168,6 +168,23 @@ impl Handler<Stop> for Counter {
     }
 }
 
+/// Message to stop [Counter] if it has no visitors, answers if it did.
+#[derive(Message)]
+#[rtype(result = "bool")]
+pub(super) struct StopIfIdle;
+
+impl Handler<StopIfIdle> for Counter {
+    type Result = bool;
+
+    fn handle(&mut self, _: StopIfIdle, ctx: &mut Self::Context) -> Self::Result {
+        let idle = self.0.get_visitors() == 0;
+        if idle {
+            ctx.stop();
+        }
+        idle
+    }
+}
+
 /// Gets internal Captcha data
 #[derive(Message)]
 #[rtype(result = "MCaptcha")]
diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index f6b08a8..ba067dd 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -32,7 +32,7 @@ use crate::master::messages::{
 };
 use crate::master::Master as MasterTrait;
 
-use super::counter::{GetCurrentVisitorCount, Stop};
+use super::counter::{Stop, StopIfIdle};
 
 /// This Actor manages the [Counter] actors.
 /// A service can have several [Counter] actors with
@@ -171,16 +171,18 @@ impl Handler<CleanUp> for Master {
         info!("init master actor cleanup up");
         let task = async move {
             for (id, (new, addr)) in sites.iter() {
-                // the counter may have been stopped since the sites were listed: removed,
-                // replaced or cleaned up by somebody else
-                let visitor_count = match addr.send(GetCurrentVisitorCount).await {
-                    Ok(count) => count,
-                    Err(_) => continue,
-                };
-                println!("{}", visitor_count);
-                if visitor_count == 0 && new.is_some() {
-                    let _ = addr.send(Stop).await;
-                    master.send(RemoveCaptcha(id.to_owned())).await.unwrap();
+                if new.is_none() {
+                    continue;
+                }
+                // the counter decides and stops in one step: no visitor can arrive in
+                // between. It may also have been stopped since the sites were listed:
+                // removed, replaced or cleaned up by somebody else
+                if let Ok(true) = addr.send(StopIfIdle).await {
+                    let msg = RemoveStopped {
+                        id: id.to_owned(),
+                        addr: addr.clone(),
+                    };
+                    master.send(msg).await.unwrap();
                     println!("cleaned up");
                 }
             }
@@ -195,6 +197,27 @@ impl Handler<CleanUp> for Master {
     }
 }
 
+/// Message to forget a [Counter] that was stopped, under whichever name it has by now
+#[derive(Message)]
+#[rtype(result = "()")]
+struct RemoveStopped {
+    id: String,
+    addr: Addr<Counter>,
+}
+
+impl Handler<RemoveStopped> for Master {
+    type Result = ();
+
+    fn handle(&mut self, m: RemoveStopped, _ctx: &mut Self::Context) -> Self::Result {
+        match self.sites.get(&m.id) {
+            Some((_, addr)) if addr == &m.addr => {
+                self.rm_site(&m.id);
+            }
+            _ => self.sites.retain(|_, (_, addr)| addr != &m.addr),
+        }
+    }
+}
+
 impl Handler<RemoveCaptcha> for Master {
     type Result = MessageResult<RemoveCaptcha>;
 
-- 
2.43.0


From ab71c48a51d68f26f707964cd83690e2dc8a0660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 09/21] fix: restored visitors of a new site expire

Restoring a snapshot into a master that does not have the site starts a
counter with visitors that nothing ever decremented.
---
 src/master/embedded/counter.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/master/embedded/counter.rs b/src/master/embedded/counter.rs
index 9c03f66..0190fa8 100644
--- a/src/master/embedded/counter.rs
+++ b/src/master/embedded/counter.rs
@@ -101,6 +101,21 @@ impl From<MCaptcha> for Counter {
 }
 impl Actor for Counter {
     type Context = Context<Self>;
+
+    fn started(&mut self, ctx: &mut Self::Context) {
+        // visitors that were counted before, in a snapshot that is restored, leave too
+        let count = self.0.get_visitors();
+        if count > 0 {
+            let addr = ctx.address();
+            let duration: Duration = Duration::new(self.0.get_duration(), 0);
+            let wait_for = async move {
+                sleep(duration).await;
+                addr.send(BulkDecrement(count)).await.unwrap();
+            }
+            .into_actor(self);
+            ctx.spawn(wait_for);
+        }
+    }
 }
 
 /// Message to decrement the visitor count
-- 
2.43.0


From 97201145b5477495a877f5b75149057e6e305d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 10/21] fix: a Redis error while storing a token is an error,
 not a panic

The panic took down the cache actor and all requests after it.
---
 src/redis/mcaptcha_redis.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 238891c..73de996 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -207,21 +207,16 @@ impl MCaptchaRedisConnection {
 
     /// Add PoW Token object to Redis
     pub async fn add_token(&self, msg: &CacheResult) -> CaptchaResult<()> {
-        use redis::RedisResult;
         // mcaptcha:token:captcha::token
         let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
-        let e: RedisResult<()> = self
-            .0
+        self.0
             .exec::<()>(redis::cmd("SET").arg(&[
                 &key,
                 &msg.key,
                 "EX",
                 msg.duration.to_string().as_str(),
             ]))
-            .await;
-        if let Err(e) = e {
-            panic!("{}", e);
-        }
+            .await?;
         Ok(())
     }
 
-- 
2.43.0


From 780e97ba644f5c6e786ef1e80507ca9f6e80c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 11/21] fix: a malformed reply of the Redis module is an error,
 not a panic

The panic took down the cache or master actor and all requests after it.
---
 src/redis/mcaptcha_redis.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 73de996..184961c 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -117,7 +117,8 @@ impl MCaptchaRedisConnection {
     /// Add visitor
     pub async fn add_visitor(&self, msg: AddVisitor) -> CaptchaResult<Option<AddVisitorResult>> {
         let res: String = self.0.exec(redis::cmd(ADD_VISITOR).arg(&[msg.0])).await?;
-        let res: AddVisitorResult = serde_json::from_str(&res).unwrap();
+        let res: AddVisitorResult =
+            serde_json::from_str(&res).map_err(|_| CaptchaError::MCaptchaRedisModuleError)?;
         Ok(Some(res))
     }
 
@@ -188,7 +189,7 @@ impl MCaptchaRedisConnection {
             .0
             .exec(redis::cmd(GET_CHALLENGE).arg(&[&msg.key, &msg.token]))
             .await?;
-        Ok(serde_json::from_str(&challege).unwrap())
+        serde_json::from_str(&challege).map_err(|_| CaptchaError::MCaptchaRedisModuleError)
     }
 
     /// Delete PoW Challenge object from Redis
-- 
2.43.0


From 71f44cf7dcd9893c4ddaece1dc2402b7650cb17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 12/21] fix: find the mCaptcha module among all loaded Redis
 modules

Only the first module of the list was looked at.
---
 src/redis/mcaptcha_redis.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 184961c..6681443 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -70,12 +70,10 @@ impl MCaptchaRedis {
 impl MCaptchaRedisConnection {
     async fn is_module_loaded(&self) -> CaptchaResult<()> {
         if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await.unwrap() {
-            if let Some(Value::Array(s)) = s.first() {
-                match s.iter().find(|i| format!("{:?}", i).contains(MODULE_NAME)) {
-                    Some(_) => (),
-                    None => return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded),
-                }
-            } else {
+            if !s
+                .iter()
+                .any(|module| format!("{:?}", module).contains(MODULE_NAME))
+            {
                 return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded);
             }
         }
-- 
2.43.0


From 151de1ade3243e1d5a1d6e90f5a37bf6b1ffc32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 13/21] fix: a Redis error while looking for the module is an
 error, not a panic

---
 src/redis/mcaptcha_redis.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 6681443..eee4b21 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -69,7 +69,7 @@ impl MCaptchaRedis {
 
 impl MCaptchaRedisConnection {
     async fn is_module_loaded(&self) -> CaptchaResult<()> {
-        if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await.unwrap() {
+        if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await? {
             if !s
                 .iter()
                 .any(|module| format!("{:?}", module).contains(MODULE_NAME))
@@ -94,8 +94,7 @@ impl MCaptchaRedisConnection {
             if let Value::Array(mut val) = self
                 .0
                 .exec(redis::cmd("COMMAND").arg(&["INFO", cmd]))
-                .await
-                .unwrap()
+                .await?
             {
                 if let Some(Value::Nil) = val.pop() {
                     return Err(CaptchaError::MCaptchaRediSModuleCommandNotFound(
-- 
2.43.0


From 038f807cccd1f9650dcc0d2d42e142f440e27614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 14/21] fix: tokens of different sites never share a Redis key

Site "a:b" with token "c" and site "a" with token "b:c" had the same key: a
token of the one was accepted by the other.
---
 src/redis/mcaptcha_redis.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index eee4b21..b3c231d 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -47,6 +47,13 @@ const DELETE_CHALLENGE: &str = "MCAPTCHA_CACHE.DELETE_CHALLENGE";
 
 const MODULE_NAME: &str = "mcaptcha_cache";
 
+/// Redis key of a token. The length keeps captcha and token apart, both of which may
+/// contain the separator
+fn token_key(captcha: &str, token: &str) -> String {
+    // mcaptcha:token:length of captcha:captcha:token
+    format!("mcaptcha:token:{}:{}:{}", captcha.len(), captcha, token)
+}
+
 impl MCaptchaRedis {
     /// Get new [MCaptchaRedis]. Use this when executing commands that are
     /// only supported by mCaptcha Redis module. Internally, when object
@@ -205,8 +212,7 @@ impl MCaptchaRedisConnection {
 
     /// Add PoW Token object to Redis
     pub async fn add_token(&self, msg: &CacheResult) -> CaptchaResult<()> {
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        let key = token_key(&msg.key, &msg.token);
         self.0
             .exec::<()>(redis::cmd("SET").arg(&[
                 &key,
@@ -221,8 +227,7 @@ impl MCaptchaRedisConnection {
     /// Get PoW Token object to Redis
     pub async fn get_token(&self, msg: &VerifyCaptchaResult) -> CaptchaResult<bool> {
         //use redis::RedisResult;
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        let key = token_key(&msg.key, &msg.token);
         let res = self.0.exec(redis::cmd("DEL").arg(&[&key])).await?;
         match res {
             1 => Ok(true),
@@ -234,8 +239,7 @@ impl MCaptchaRedisConnection {
     /// Delete PoW Token object from Redis
     pub async fn delete_token(&self, msg: &VerifyCaptchaResult) -> CaptchaResult<()> {
         //use redis::RedisResult;
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        let key = token_key(&msg.key, &msg.token);
         self.0.exec::<()>(redis::cmd("DEL").arg(&[&key])).await?;
         Ok(())
     }
-- 
2.43.0


From b60438ecff1bb8e0df68cba8b1689fd8245991f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 15/21] fix: the Redis cache survives requesters that went away

Answering a request whose future was dropped panicked and took down the cache
actor and all requests after it.
---
 src/cache/redis.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cache/redis.rs b/src/cache/redis.rs
index c2c6fb8..568a2ec 100644
--- a/src/cache/redis.rs
+++ b/src/cache/redis.rs
@@ -57,7 +57,7 @@ impl Handler<CachePoW> for RedisCache {
             };
 
             let res = con.add_challenge(&msg.key, &payload).await;
-            tx.send(res).unwrap();
+            let _ = tx.send(res);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -86,7 +86,7 @@ impl Handler<RetrivePoW> for RedisCache {
                 }
             };
 
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -103,7 +103,7 @@ impl Handler<CacheResult> for RedisCache {
         let con = self.0.get_client();
         let fut = async move {
             let r = con.add_token(&msg).await;
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -120,7 +120,7 @@ impl Handler<VerifyCaptchaResult> for RedisCache {
         let con = self.0.get_client();
         let fut = async move {
             let r = con.get_token(&msg).await;
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
-- 
2.43.0


From 21aa77617e26dac28734f3cf7e1a6d0f944afdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 16/21] fix: compare the names of loaded Redis modules exactly

---
 src/redis/mcaptcha_redis.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index b3c231d..e56f151 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -15,6 +15,8 @@
  * You should have received a copy of the GNU Affero General Public License
  * along with this program.  If not, see <http://www.gnu.org/licenses/>.
  */
+use std::collections::HashMap;
+
 use redis::Value;
 
 use crate::cache::messages::CacheResult;
@@ -54,6 +56,15 @@ fn token_key(captcha: &str, token: &str) -> String {
     format!("mcaptcha:token:{}:{}:{}", captcha.len(), captcha, token)
 }
 
+/// Is an entry of MODULE LIST the mCaptcha module?
+fn is_mcaptcha_module(module: &HashMap<String, Value>) -> bool {
+    match module.get("name") {
+        Some(Value::BulkString(name)) => name == MODULE_NAME.as_bytes(),
+        Some(Value::SimpleString(name)) => name == MODULE_NAME,
+        _ => false,
+    }
+}
+
 impl MCaptchaRedis {
     /// Get new [MCaptchaRedis]. Use this when executing commands that are
     /// only supported by mCaptcha Redis module. Internally, when object
@@ -76,13 +87,10 @@ impl MCaptchaRedis {
 
 impl MCaptchaRedisConnection {
     async fn is_module_loaded(&self) -> CaptchaResult<()> {
-        if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await? {
-            if !s
-                .iter()
-                .any(|module| format!("{:?}", module).contains(MODULE_NAME))
-            {
-                return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded);
-            }
+        let modules: Vec<HashMap<String, Value>> =
+            self.0.exec(redis::cmd("MODULE").arg("LIST")).await?;
+        if !modules.iter().any(is_mcaptcha_module) {
+            return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded);
         }
 
         let commands = vec![
-- 
2.43.0


From f413613e81a9511ad4026d93e7456441f69f2d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 17/21] fix: a command without description in COMMAND INFO is
 missing

---
 src/redis/mcaptcha_redis.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index e56f151..f6022f3 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -106,17 +106,18 @@ impl MCaptchaRedisConnection {
         ];
 
         for cmd in commands.iter() {
-            if let Value::Array(mut val) = self
+            let info: Value = self
                 .0
                 .exec(redis::cmd("COMMAND").arg(&["INFO", cmd]))
-                .await?
-            {
-                if let Some(Value::Nil) = val.pop() {
-                    return Err(CaptchaError::MCaptchaRediSModuleCommandNotFound(
-                        cmd.to_string(),
-                    ));
-                };
-            };
+                .await?;
+            // one description per known command, nil for an unknown one
+            let known =
+                matches!(&info, Value::Array(v) if matches!(v.first(), Some(Value::Array(_))));
+            if !known {
+                return Err(CaptchaError::MCaptchaRediSModuleCommandNotFound(
+                    cmd.to_string(),
+                ));
+            }
         }
         Ok(())
     }
-- 
2.43.0


From fcaca2979731f8f4a897d73840a971752ca79501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 18/21] fix: concurrent commands on one Redis connection do not
 panic

---
 src/redis/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/redis/mod.rs b/src/redis/mod.rs
index 14727f0..82db149 100644
--- a/src/redis/mod.rs
+++ b/src/redis/mod.rs
@@ -74,7 +74,11 @@ impl RedisConnection {
     /// execute a redis command against a [Self]
     pub async fn exec<T: FromRedisValue>(&self, cmd: &mut redis::Cmd) -> redis::RedisResult<T> {
         match self {
-            RedisConnection::Single(con) => cmd.query_async(&mut *con.borrow_mut()).await,
+            RedisConnection::Single(con) => {
+                // never borrow across an await: others may use this connection meanwhile
+                let mut con = con.borrow().clone();
+                cmd.query_async(&mut con).await
+            }
             RedisConnection::Cluster(con) => cmd.query(&mut *con.borrow_mut()),
         }
     }
-- 
2.43.0


From cf1ae856992c5ddf4cd44dc96eda980ecceb7a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 19/21] fix: a Redis that cannot be reached is an error, not a
 panic

---
 src/redis/mod.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/redis/mod.rs b/src/redis/mod.rs
index 82db149..9601b2e 100644
--- a/src/redis/mod.rs
+++ b/src/redis/mod.rs
@@ -39,18 +39,17 @@ pub enum RedisConfig {
 impl RedisConfig {
     /// Create Redis connection
     pub async fn connect(&self) -> RedisClient {
-        match self {
+        self.try_connect().await.unwrap()
+    }
+
+    async fn try_connect(&self) -> CaptchaResult<RedisClient> {
+        let client = match self {
             Self::Single(url) => {
-                let client = ConnectionManager::new(Client::open(url.as_str()).unwrap())
-                    .await
-                    .unwrap();
-                RedisClient::Single(client)
+                RedisClient::Single(ConnectionManager::new(Client::open(url.as_str())?).await?)
             }
-            Self::Cluster(nodes) => {
-                let cluster_client = ClusterClient::new(nodes.to_owned()).unwrap();
-                RedisClient::Cluster(cluster_client)
-            }
-        }
+            Self::Cluster(nodes) => RedisClient::Cluster(ClusterClient::new(nodes.to_owned())?),
+        };
+        Ok(client)
     }
 }
 
@@ -126,7 +125,7 @@ impl Redis {
     }
 
     async fn connect(redis: RedisConfig) -> CaptchaResult<(RedisClient, RedisConnection)> {
-        let redis = redis.connect().await;
+        let redis = redis.try_connect().await?;
         let client = match &redis {
             RedisClient::Single(c) => RedisConnection::Single(Rc::new(RefCell::new(c.clone()))),
             RedisClient::Cluster(c) => {
-- 
2.43.0


From 71ed93522a412419fa8e76fd48b96d56546e1948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:43 +0000
Subject: [PATCH 20/21] fix: visitors of a replaced counter state do not leave
 the restored one

---
 src/master/embedded/counter.rs | 54 +++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/master/embedded/counter.rs b/src/master/embedded/counter.rs
index 0190fa8..eca3845 100644
--- a/src/master/embedded/counter.rs
+++ b/src/master/embedded/counter.rs
@@ -92,11 +92,17 @@ use crate::mcaptcha::MCaptcha;
 /// This struct represents the mCaptcha state and is used
 /// to configure leaky-bucket lifetime and manage defense
 #[derive(Clone, Serialize, Deserialize, Debug)]
-pub struct Counter(MCaptcha);
+#[serde(transparent)]
+pub struct Counter(
+    MCaptcha,
+    /// how often the state was replaced; visitors of a replaced state don't leave any more
+    #[serde(skip)]
+    u32,
+);
 
 impl From<MCaptcha> for Counter {
     fn from(m: MCaptcha) -> Counter {
-        Counter(m)
+        Counter(m, 0)
     }
 }
 impl Actor for Counter {
@@ -106,27 +112,32 @@ impl Actor for Counter {
         // visitors that were counted before, in a snapshot that is restored, leave too
         let count = self.0.get_visitors();
         if count > 0 {
-            let addr = ctx.address();
             let duration: Duration = Duration::new(self.0.get_duration(), 0);
-            let wait_for = async move {
-                sleep(duration).await;
-                addr.send(BulkDecrement(count)).await.unwrap();
-            }
-            .into_actor(self);
+            let state = self.1;
+            let wait_for = sleep(duration)
+                .into_actor(self)
+                .map(move |_, counter, ctx| {
+                    if counter.1 == state {
+                        counter.handle(BulkDecrement(count), ctx);
+                    }
+                });
             ctx.spawn(wait_for);
         }
     }
 }
 
-/// Message to decrement the visitor count
+/// Message to decrement the visitor count, if the state is still the one that the visitor was
+/// counted in
 #[derive(Message)]
 #[rtype(result = "()")]
-struct DeleteVisitor;
+struct DeleteVisitor(u32);
 
 impl Handler<DeleteVisitor> for Counter {
     type Result = ();
-    fn handle(&mut self, _msg: DeleteVisitor, _ctx: &mut Self::Context) -> Self::Result {
-        self.0.decrement_visitor_by(1);
+    fn handle(&mut self, msg: DeleteVisitor, _ctx: &mut Self::Context) -> Self::Result {
+        if msg.0 == self.1 {
+            self.0.decrement_visitor_by(1);
+        }
     }
 }
 
@@ -144,10 +155,11 @@ impl Handler<AddVisitor> for Counter {
         //use actix::clock::delay_for;
 
         let duration: Duration = Duration::new(self.0.get_duration(), 0);
+        let state = self.1;
         let wait_for = async move {
             sleep(duration).await;
             //delay_for(duration).await;
-            addr.send(DeleteVisitor).await.unwrap();
+            addr.send(DeleteVisitor(state)).await.unwrap();
         }
         .into_actor(self);
         ctx.spawn(wait_for);
@@ -234,16 +246,18 @@ impl Handler<SetInternalData> for Counter {
     type Result = MessageResult<SetInternalData>;
 
     fn handle(&mut self, d: SetInternalData, ctx: &mut Self::Context) -> Self::Result {
-        let addr = ctx.address();
         self.0 = d.0;
+        self.1 += 1;
+        let state = self.1;
         let duration: Duration = Duration::new(self.0.get_duration(), 0);
         let count = self.0.get_visitors();
-        let wait_for = async move {
-            sleep(duration).await;
-            //delay_for(duration).await;
-            addr.send(BulkDecrement(count)).await.unwrap();
-        }
-        .into_actor(self);
+        let wait_for = sleep(duration)
+            .into_actor(self)
+            .map(move |_, counter, ctx| {
+                if counter.1 == state {
+                    counter.handle(BulkDecrement(count), ctx);
+                }
+            });
         ctx.spawn(wait_for);
 
         MessageResult(())
-- 
2.43.0


From 29cc076b504096d905c16e644340b4aa763fcb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:01 +0000
Subject: [PATCH 21/21] fix: a job that panics does not take its verification
 thread down

A stored challenge with a difficulty factor of 0 makes the verification panic; the thread
ended, and with it, for good, the service of submissions
---
 src/queue.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/queue.rs b/src/queue.rs
index 123afb6..94489ca 100644
--- a/src/queue.rs
+++ b/src/queue.rs
@@ -17,6 +17,7 @@
  */
 use std::collections::HashMap;
 use std::collections::VecDeque;
+use std::panic::{self, AssertUnwindSafe};
 use std::rc::Rc;
 use std::thread::{self, JoinHandle};
 
@@ -61,7 +62,10 @@ impl RunnerThread {
                 match msg {
                     Message::Stop => return,
                     Message::Prove(r) => {
-                        r.run();
+                        // a job that panics must not take the runner down with it
+                        if panic::catch_unwind(AssertUnwindSafe(|| r.run())).is_err() {
+                            error!("runner {name}: job panicked");
+                        }
                         if tx_manager
                             .send(InnerManagerMessage::Dispatch(name))
                             .is_err()
-- 
2.43.0

