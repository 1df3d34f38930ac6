#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

SYS="src/system.rs"; POW="src/pow.rs"; Q="src/queue.rs"; HC="src/cache/hashcache.rs"; CM="src/cache/mod.rs"
EM="src/master/embedded/master.rs"; EC="src/master/embedded/counter.rs"; MC="src/mcaptcha.rs"; DF="src/defense.rs"
RM="src/redis/mcaptcha_redis.rs"; RC="src/cache/redis.rs"; RMM="src/master/redis/master.rs"; RI="src/redis/mod.rs"; MM="src/master/mod.rs"; ER="src/errors.rs"

p("C01","A token is issued exactly for correct, timely work on an issued challenge",
  "Submitting work yields a token if and only if the challenge string was issued for the very site named in the submission, is unexpired and unused, the claimed result is the true score of the submitted nonce over that string under the system's salt, and that score reaches the difficulty the challenge was issued with. The difficulty reported back is the one the challenge was issued with. Every other submission gets an error, in particular \"not found\" for strings that are unknown, used or expired and \"wrong key\" for a live string of another site.",
  ["inputs","histories"],
  "every sequence (to the stated depth) of submissions from an alphabet of right and wrong works (result too low, too high, not a number, other string, other salt, other site, unknown string, replayed, late), issues and time steps, over sites of different difficulty",
  "the system test submits one good work, one of insufficient difficulty, one with a wrong key and one unknown string, on one site, once each; a soundness claim is about every combination of what an attacker may send and when",
  [SYS,POW,HC],[("retrieval of the challenge, key comparison, queueing of the check, storing of the token","src/system.rs verify_pow"),("difficulty and proof checks","src/pow.rs QueuedWork")],
  [("challenge cache","strings issued and not used or expired","src/cache/hashcache.rs")],["System::verify_pow","System::get_pow"])
p("C02","A challenge admits one submission, also under concurrency",
  "Among any number of submissions naming the same challenge string, sequential or concurrent and in any interleaving, at most one is evaluated: at most one is ever answered with a token, and if all of them carry correct work for the right site exactly one is. All the others are answered \"not found\", whether the one that was evaluated succeeded or failed.",
  ["schedules","histories"],
  "all interleavings, up to the stated number of deviations, of 2 or 3 concurrent submissions of one challenge with 1 or 2 verification threads",
  "no test submits a challenge concurrently; replay is tested in one fixed sequential order",
  [SYS,HC,Q],[("take-on-retrieve of the challenge","src/cache/hashcache.rs RetrivePoW"),("serialisation by the cache actor","src/cache/hashcache.rs")],
  observe=["System::verify_pow"])
p("C03","Every submission is answered, whatever the others do",
  "Every work submission is answered in every schedule: no set of other submissions (correct, wrong in any way, from any addresses, or abandoned by their submitter at any moment) keeps a submission from getting its own verdict, stops the verification threads, or stops later submissions from being served. A refused submission (queue full) is answered immediately with that error.",
  ["schedules","fault_sequences"],
  "all interleavings, up to the stated number of deviations, of 2-3 submissions of mixed quality on 1-2 verification threads and 1-2 executor threads, with every abandonment point of one of them",
  "tests submit one work at a time and wait for it; blocked verification threads and busy waiting only show with concurrent submissions in particular schedules",
  [SYS,POW,Q],[("one verdict per work over a bounded channel","src/pow.rs QueuedWork::validate"),("dispatch to free runners","src/queue.rs"),("waiting for the verdict","src/system.rs verify_pow")],
  observe=["System::verify_pow"])
p("C04","Verification tokens are single use, bound to their site and short-lived",
  "A verification token is accepted at most once, only for the site its challenge was issued for, and only before the site's duration has passed since it was issued; unknown tokens and tokens for other sites are rejected without error. The first validation that names the right site, in time and not preceded by any other validation of that token, is accepted. Of several concurrent validations of the same valid token exactly one is accepted.",
  ["histories","schedules"],
  "every sequence (to the stated depth) of issue, validate (any token, any site) and time steps, and all task orders of 2-3 concurrent validations",
  "the cache test validates two tokens in one fixed order and sleeps once; single use under concurrency and per-token lifetimes are never exercised",
  [HC,SYS,CM],[("remove-then-compare of the stored site","src/cache/hashcache.rs verify_captcha_result"),("expiry timer per token","src/cache/hashcache.rs CacheResult")],
  observe=["System::validate_verification_tokens","VerifyCaptchaResult message"])
p("C05","Every cached challenge and token lives exactly its own lifetime",
  "In the in-memory cache an entry (challenge or token, under a string not used before) is available from the moment it is stored until its own duration has passed or it is consumed, and never after; its data come back unchanged. Storing, consuming or expiring any other entry, of the same or of the other kind, makes no difference to it.",
  ["histories"],
  "every sequence (to the stated depth) of store (two durations, both kinds), consume and time steps, interleaved so that entries overlap in every way",
  "tests store one entry per kind with one duration and sleep past it: no overlap, no different durations, no entry that outlives another's timer",
  [HC],[("a delayed delete message per entry","src/cache/hashcache.rs"),("one map per kind","src/cache/hashcache.rs HashCache")],
  observe=["CachePoW, RetrivePoW, CacheResult, VerifyCaptchaResult messages"])
p("C06","A site's visitor count is the number of its visits in the last duration",
  "At any time the visitor count of a site equals the number of visits it received less than its duration ago (leaky bucket): every visit counts from the moment it is answered, leaves exactly one duration later, and is counted once. Visits to one site never change another site's count, and the count is never negative.",
  ["histories"],
  "every sequence (to the stated depth) of visits to two sites with different durations, bursts and sub-duration time steps",
  "tests add a few visitors and read the count once; the timing relation between many overlapping visits is not tested",
  [EC,MC,EM],[("increment and delayed decrement","src/master/embedded/counter.rs AddVisitor"),("saturating decrement","src/mcaptcha.rs decrement_visitor_by")],
  [("visitor count","visits not yet expired","src/mcaptcha.rs")],["AddVisitor, GetCurrentVisitorCount, GetInternalData messages"])
p("C07","Difficulty follows the visitor count one level per visit and does not flap",
  "Levels are ordered by threshold; a visit first raises the count by one, then moves the level at most one step: up one if the count exceeds the current level's threshold (the top level stays), down one only if the count does not exceed the threshold of the level below, and otherwise not at all. The difficulty given to a visitor is that of the resulting level, so it is always one of the configured ones; expiry of visits lowers the count but never moves the level by itself. Setting the defense to minimum or maximum, tightening and loosening never leave the configured range, and the reported threshold and difficulty are the current level's.",
  ["configurations","histories"],
  "all reachable states of every configuration of 1-4 levels over a small threshold/difficulty domain under visits and decrements of any size, by breadth-first search on the real object",
  "tests run two configurations through one load pattern and look at two moments; alternation between visits and the boundary counts are never looked at",
  [MC,DF,EC],[("level step","src/mcaptcha.rs add_visitor"),("clamped level index","src/defense.rs tighten_up/loosen_up")],
  [("current level","index into the sorted levels","src/defense.rs")],["MCaptcha::add_visitor/get_difficulty","AddVisitorResult"])
p("C08","Only well-formed defenses and sites can be built, and all of them can",
  "A level needs a threshold set and a difficulty set and greater than zero; a defense needs at least one level, pairwise distinct thresholds and difficulties that never decrease when levels are ordered by threshold, in whatever order they were added; a site needs a defense and a duration greater than zero. Every input satisfying this builds, with the levels in ascending order of threshold, starting at the lowest level with no visitors; every other input is refused with the error naming its problem, and nothing panics.",
  ["inputs","configurations"],
  "all sequences of up to 4 levels over a small domain of thresholds and difficulties in every order, including boundary values, and all combinations of set and unset builder fields",
  "tests check one instance of each error and one good configuration, added in ascending order",
  [DF,MC],[("uniqueness check and sort","src/defense.rs DefenseBuilder"),("field checks","src/mcaptcha.rs MCaptchaBuilder, src/defense.rs LevelBuilder")],
  observe=["LevelBuilder, DefenseBuilder, MCaptchaBuilder"])
p("C09","Accepted work is run exactly once and never waits while a runner is free",
  "Every job the verification queue accepts is run exactly once, in every schedule; a refused job is never run. At no quiescent moment is there an accepted job waiting while a verification thread is idle, and no more jobs run at a time than there are verification threads.",
  ["schedules"],
  "all interleavings, up to the stated number of deviations, of up to 5 submissions from up to 3 addresses over 1-3 verification threads, jobs held and released in any order",
  "the queue tests use jobs that finish at once and do not look at stranded ones: the receive loop of abuse_manager iterates over an empty range",
  [Q],[("dispatch on submission and on completion","src/queue.rs InnerManager")],
  [("waiting work per address","jobs accepted and not handed to a runner","src/queue.rs")],["queue Manager::add","Runnable::run"],"cfg(libmcaptcha_verif): re-export of the private queue module")
p("C10","The queue refuses work exactly when its address limit is reached, and recovers",
  "A submission is refused with the queue-full error if and only if the number of distinct addresses with work waiting for a verification thread already equals the configured limit when the submission arrives; otherwise it is accepted. Refusals leave no trace: as soon as waiting work is taken up the queue accepts again, for any number of distinct addresses over its lifetime.",
  ["schedules","histories"],
  "every sequence (to the stated depth) of submissions from up to 4 addresses and job completions, for limits 0-3 and 1-2 verification threads, and all interleavings up to the stated number of deviations",
  "no test ever fills the queue; tests use limits that are never reached",
  [Q,SYS],[("admission check","src/queue.rs InnerManager::schedule")],
  observe=["queue Manager::add","System::verify_pow error"],hook="cfg(libmcaptcha_verif)")
p("C11","Addresses take turns, and each address's work runs in order",
  "Work of one address is started in the order it was accepted. When work of several addresses is waiting, freed verification threads take it in turns: between two consecutive jobs of one address, every other address that was waiting all along gets one started, so a flood from one address delays another address's next job by at most one job per waiting address.",
  ["schedules","histories"],
  "every sequence (to the stated depth) of submissions from up to 3 addresses and completions with 1-2 verification threads, and all interleavings up to the stated number of deviations",
  "tests never make two addresses compete for a runner, nor check any order",
  [Q],[("round robin over addresses with waiting work","src/queue.rs InnerManager::dispatch_to"),("first in first out per address","src/queue.rs")],
  observe=["order of Runnable::run"],hook="cfg(libmcaptcha_verif)")
p("C12","Shutting the queue down terminates cleanly from every state",
  "Dropping the system's verification queue returns, in every schedule and from every state (idle, jobs running, jobs waiting), after the jobs already running have ended; all its threads end, nothing panics, no job is started after that, and no job is run twice.",
  ["schedules"],
  "all interleavings, up to the stated number of deviations, of dropping the queue with 0-4 jobs submitted, running or waiting, for 0-3 verification threads",
  "tests drop an idle manager once",
  [Q],[("stop message and join of all threads","src/queue.rs Drop")],
  observe=["drop of the queue Manager / System"],hook="cfg(libmcaptcha_verif)")
p("C13","The site registry behaves like a map from names to independent sites",
  "Adding a site makes it known under its name with the given configuration and no visitors, replacing any previous one; removing makes it unknown; renaming moves a site with its configuration, visitors and level to the new name, replacing what was there, and does nothing if the old name is unknown; all of these succeed. A visit to a known name counts for that site only and returns that site's duration and current difficulty, and a visit to an unknown name returns nothing and creates nothing.",
  ["histories"],
  "every sequence (to the stated depth) of add, remove, rename and visit over three names and two configurations, compared with a map after every step",
  "the master test performs one add, one rename and two lookups",
  [EM],[("ordered map from names to counters","src/master/embedded/master.rs Master")],
  [("sites","known names","src/master/embedded/master.rs")],["AddSite, RemoveCaptcha, Rename, AddVisitor, GetSite, GetInternalData messages"])
p("C14","Garbage collection removes exactly the idle, once-visited sites",
  "The periodic clean-up removes a site only if it has ever been looked up or visited and has no unexpired visitor at the moment it is removed; sites never used and sites with visitors keep their state. Every site used since it was added or last renamed that then stays idle is removed within a clean-up period after its visitors have left, and clean-up goes on for as long as the registry lives. Neither a visit, rename, add or removal racing with the clean-up is lost: the site it concerns is never removed in place of another, nor left behind in a state in which its visits fail for good.",
  ["histories","schedules"],
  "every sequence (to the stated depth) of site operations and time steps around clean-up instants, and all task orders up to the stated number of deviations of a clean-up run with 1-2 concurrent operations",
  "the master test waits once for the removal of one idle site",
  [EM,EC],[("listing of sites, idle check in the counter, removal by identity","src/master/embedded/master.rs CleanUp")],
  observe=["AddVisitor, GetInternalData messages over time"])
p("C15","The registry survives and answers every interleaving of requests",
  "No interleaving of registry requests (add, remove, rename, visit, look-up, clean-up, snapshot, restore) ends the registry or leaves a request without an answer, and requests after it are served normally. The answers and the final state of concurrent add, remove, rename and visit requests are those of some sequential order of them.",
  ["schedules"],
  "all task orders, up to the stated number of deviations, of every pair (and selected triples) of concurrent requests on shared names",
  "tests send one request at a time",
  [EM,EC],[("message handlers and the tasks they spawn","src/master/embedded/master.rs")],
  observe=["all messages of the embedded Master"])
p("C16","Snapshot and restore preserve sites, and restored visitors still expire",
  "A snapshot contains every known site with its configuration, visitor count and level, and taking it changes nothing. Restoring a snapshot, into a fresh registry or one that knows some of the sites, makes every site of the snapshot known with exactly that configuration, count and level, leaves other sites alone, and the restored visitors are gone one duration after the restore, new visits being counted on top.",
  ["histories"],
  "every sequence (to the stated depth) of visits and time steps before the snapshot and after the restore, into an empty registry and into one where the site exists but is idle, compared with the model",
  "the test restores into the same live site and reads the count back at once; expiry after restoring into a fresh registry is not tested",
  [EM,EC],[("collection and distribution of counter states","src/master/embedded/master.rs GetInternalData/SetInternalData"),("expiry of restored visitors","src/master/embedded/counter.rs")],
  observe=["GetInternalData, SetInternalData, AddVisitor messages"])
p("C17","A challenge is issued only for known sites and counts one visit",
  "Asking for a challenge of an unknown site yields none and changes nothing; for a known site it counts exactly one visit and yields the difficulty that visit resulted in, the system's salt and a fresh string, different from all others. The challenge handed out is accepted for that site at that difficulty from then on until the site's duration has passed, even if the site's level changes, or it is removed or renamed, in the meantime.",
  ["histories","schedules"],
  "every sequence (to the stated depth) of challenge requests and site changes over two sites, and all task orders of 2-3 concurrent requests",
  "the system test asks for one challenge of one site",
  [SYS,POW,HC],[("visit, minting and caching","src/system.rs get_pow")],
  observe=["System::get_pow followed by System::verify_pow"])
p("C18","With Redis, tokens are single use, bound to their site and short-lived",
  "A token stored in Redis is accepted exactly once, only together with the site it was issued for whatever characters site names and tokens contain, and only until its duration has passed; a validation that is rejected changes nothing for any other token or site. Two validators racing for one token get exactly one acceptance.",
  ["histories","inputs"],
  "every sequence (to the stated depth) of store, validate, delete and expiry over site names and tokens from an alphabet containing the separator, against a Redis stand-in whose SET/DEL behaviour is checked against the real server",
  "the tests need a Redis with the module and check one token in one order",
  [RM,RC],[("key layout, SET with expiry, DEL as test-and-clear","src/redis/mcaptcha_redis.rs add_token/get_token/delete_token")],
  observe=["RedisCache: CacheResult, VerifyCaptchaResult","MCaptchaRedisConnection"])
p("C19","A Redis fault is an error for the request it hits and nothing more",
  "If Redis answers a command with an error, a value of an unexpected type or malformed data, hangs up or does not answer in time, or a requester goes away before its answer, that request is answered with an error (never with success; where the answer to a command carries no information, one of an unexpected type may count as success) or dropped, nothing panics, and the cache and the registry serve all later requests normally, once connected again if the connection broke.",
  ["fault_sequences"],
  "every request kind of the Redis-backed cache and registry, with every fault at every command it issues, followed by every request kind without fault; and every request kind with the requester gone",
  "tests talk to a healthy Redis only",
  [RM,RC,RMM,RI],[("error propagation in the command wrappers","src/redis/mcaptcha_redis.rs"),("answers over one-shot channels","src/cache/redis.rs, src/master/redis/master.rs")],
  observe=["RedisCache and Redis Master messages"])
p("C20","Connecting succeeds exactly if the mCaptcha module and its commands are there",
  "Setting up the Redis-backed cache or registry succeeds if and only if the mCaptcha module is among the loaded modules, whatever other modules are loaded in whatever order, and every command the library needs is known to the server. Otherwise it fails with the error that says which: module not loaded, or the missing command's name; a server error, a reply that makes no sense or a server that cannot be reached is passed on as an error, never as a panic.",
  ["configurations","fault_sequences"],
  "all module lists of up to 3 modules in every order, every subset of missing commands of size up to 2, and every fault at every probe",
  "tests connect to one healthy server with one module",
  [RM],[("MODULE LIST and COMMAND INFO probes","src/redis/mcaptcha_redis.rs is_module_loaded")],
  observe=["RedisCache::new","redis Master::new"])
p("C21","The Redis backend is observably equivalent to the embedded one",
  "A system on Redis-backed cache and registry and one on the in-memory backends, driven by the same sequence of site registration, removal, renaming, visits, challenge requests, work submissions and token validations, give the same answers (tokens and strings aside), as far as both define them. In particular each request reaches Redis under the right site name, with the right difficulty, duration, challenge and levels, and existence queries tell the truth.",
  ["histories"],
  "every sequence (to the stated depth) of operations over two sites, run on both backends with the Redis side served by a reference implementation of the module's commands",
  "tests exercise each backend alone in one fixed order",
  [RM,RC,RMM,SYS],[("mapping of messages to module commands","src/redis/mcaptcha_redis.rs, src/cache/redis.rs, src/master/redis/master.rs")],
  observe=["System<RedisCache, redis Master> against System<HashCache, embedded Master>"])
p("C22","Stored and transmitted data survive the round trip",
  "Every message and state type that is stored or sent (site state, defense, level, builder, challenge, work, result and registry messages) is equal after serialisation and deserialisation, including the current level and the visitor count, and behaves identically afterwards. The registration payload for the Redis module lists all levels in ascending order with their thresholds and difficulties, and the duration.",
  ["inputs","histories"],
  "all reachable states of all small configurations, and all message values over small domains with special characters and extreme numbers",
  "no test serialises anything",
  [MC,DF,MM,CM,POW,EC],[("derived serialisation","src/mcaptcha.rs, src/defense.rs, src/cache/mod.rs, src/master/mod.rs, src/pow.rs"),("conversion to the registration payload","src/mcaptcha.rs From<MCaptcha>")],
  observe=["serde_json of the public types"])
p("C23","A failing or dead backend never yields an unusable challenge or token",
  "Whatever a cache or registry does with a request (answers an error, drops the answer, is stopped before or during it), a challenge is handed out only if the registry counted the visit and the cache stored the challenge, and a token only if the cache stored it. The caller always gets an answer, an error or none, and the system keeps serving requests once the backend answers again.",
  ["fault_sequences","schedules"],
  "every assignment of outcomes (good, error, answer dropped, actor stopped) to the backend requests of a challenge request, a submission and a validation, followed by fault-free requests",
  "tests use healthy in-memory backends only",
  [SYS,ER],[("error propagation at every await","src/system.rs")],
  observe=["System::get_pow, verify_pow, validate_verification_tokens with scripted Save/Master actors"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
