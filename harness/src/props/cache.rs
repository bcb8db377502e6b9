//! C09-C11: the readahead metadata cache.
use crate::ensure;
use crate::io::*;
use crate::props::meta::canon_tiff;
use crate::props::tiles::rand_model;
use crate::rng::{hash_bytes, mix, Rng};
use crate::run::*;
use crate::tiffmodel::*;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::{MetadataFetch, TiffMetadataReader};
use serde_json::json;
use std::ops::Range;
use std::sync::atomic::Ordering;

fn rand_cache<F: MetadataFetch>(rng: &mut Rng, f: F) -> (ReadaheadMetadataCache<F>, u64, f64) {
    let (mut i, mut m) = (32 * 1024u64, 2.0f64);
    let mut c = ReadaheadMetadataCache::new(f);
    if rng.chance(9, 10) {
        i = match rng.below(6) { 0 => rng.range(1, 4), 1 => rng.range(1, 64), 2 => 0, _ => rng.range(1, 600) };
        c = c.with_initial_size(i);
    }
    if rng.chance(3, 4) {
        m = *rng.pick(&[1.0, 1.5, 2.0, 3.0, 0.5, 0.1, 0.0, 1.0001, 8.0, 2.7]);
        c = c.with_multiplier(m);
    }
    (c, i, m)
}

fn rand_range(rng: &mut Rng, len: u64, past: bool) -> Range<u64> {
    let lim = if past { len + 40 } else { len };
    let s = rng.below(lim + 1);
    let n = match rng.below(5) { 0 => 0, 1 => rng.below(9), 2 => rng.below(40), _ => rng.below(lim + 1 - s + 1) };
    let e = (s + n).min(lim);
    if past && rng.chance(1, 40) { return s..u64::MAX - rng.below(3); }
    if past && rng.chance(1, 40) { let b = rng.range(40, 63); return s..s + (1 << b); }
    s..e
}

pub fn c09(mut r: Runner) -> i32 {
    r.rule("case = one cache configuration and one sequence of fetches (random, clustered, past the end), or one whole-file metadata read with and without the cache; distinct by (initial size, multiplier, ranges)");
    r.require(&["fetches_compared", "fetches_spanning_blocks", "fetches_past_eof", "whole_tiff_compared", "large_fetches_compared", "concurrent_fetches_compared", "hundreds_of_blocks", "buffers_outliving_the_cache"]);
    r.assume("the wrapped reader returns the in-file part of a range that extends past the end of the file");
    r.family("sequences", 12000, 200000, |rng, obs, _| {
        let len = if rng.chance(1, 20) { rng.us(700, 20000) } else { rng.us(0, 700) };
        let data = rng.bytes(len);
        let mem = Mem::new(Sparse::dense(data.clone()));
        let (c, i, mu) = rand_cache(rng, mem.clone());
        let n = rng.us(1, 25);
        let mut sig = format!("{i}{mu}");
        let mut kept = vec![];
        for k in 0..n {
            let r = rand_range(rng, len as u64, true);
            let before = mem.ctl.bytes.load(Ordering::Relaxed);
            let got = block_on(c.fetch(r.clone())).map_err(|e| format!("fetch {r:?} of {len} bytes: {e}"))?;
            let want = &data[(r.start as usize).min(len)..(r.end.min(len as u64) as usize).max((r.start as usize).min(len))];
            ensure!(got == want, "fetch #{k} {r:?} of {len} bytes through cache(initial {i}, multiplier {mu}) returned {} bytes, expected {}; log {:?}; {:?} != {:?}", got.len(), want.len(), mem.take_log(), &got[..got.len().min(60)], &want[..want.len().min(60)]);
            obs.hit("fetches_compared");
            if r.end > len as u64 { obs.hit("fetches_past_eof"); }
            if before > 0 && r.start < before && r.end > before { obs.hit("fetches_spanning_blocks"); }
            if k < 3 { sig.push_str(&format!("{r:?}")); }
            kept.push((r, got));
        }
        // what was returned stays valid when cache and source are gone
        drop((c, mem));
        for (r, got) in kept {
            let want = &data[(r.start as usize).min(len)..(r.end.min(len as u64) as usize).max((r.start as usize).min(len))];
            ensure!(got == want, "the bytes of {r:?} changed after the cache was dropped");
            obs.hit("buffers_outliving_the_cache");
        }
        obs.sign(&sig);
        obs.sample(|| sig.clone());
        Ok(())
    });
    // real sizes: the default configuration, megabytes cached, tiny and huge reads
    r.family("large", 8, 150, |rng, obs, _| {
        let len = match rng.below(3) { 0 => rng.range(60_000, 200_000), 1 => rng.range(200_000, 2 << 20), _ => rng.range(2 << 20, 12 << 20) } as usize;
        let data = bytes::Bytes::from(rng.bytes(len));
        let mem = Mem::new(Sparse::dense(data.to_vec()));
        let mut c = ReadaheadMetadataCache::new(mem.clone());
        let init = *rng.pick(&[32 * 1024u64, 32 * 1024, 4096, 64 * 1024, 65_537, 1 << 20]);
        if init != 32 * 1024 { c = c.with_initial_size(init); }
        let mult = *rng.pick(&[2.0f64, 2.0, 1.0, 0.3, 0.0, 1.1]);
        if mult != 2.0 { c = c.with_multiplier(mult); }
        let mut sig = format!("{init}{mult}{len}");
        for k in 0..rng.us(5, 60) {
            let s = rng.below(len as u64 + 10);
            let n = match rng.below(6) { 0 => rng.below(16), 1 => rng.below(5000), 2 => 65_536 + rng.below(3), 3 => rng.below(1 << 20), 4 => 32 * 1024, _ => rng.below(len as u64) };
            // reads creeping up from the front make many blocks before one read spans them all
            let s = if rng.chance(2, 3) { s.min(mem.ctl.bytes.load(Ordering::Relaxed)).saturating_sub(rng.below(20_000)) } else { s };
            let n = if rng.chance(1, 2) { n.min(70_000) } else { n };
            let r = s..s + n;
            let got = block_on(c.fetch(r.clone())).map_err(|e| format!("fetch {r:?} of {len} bytes: {e}"))?;
            let (a, b) = ((s as usize).min(len), ((s + n) as usize).min(len));
            ensure!(got == data[a..b], "fetch #{k} {r:?} of {len} bytes through cache(initial {init}, multiplier {mult}) returned {} bytes, expected {}, first difference at {:?}", got.len(), b - a, got.iter().zip(&data[a..b]).position(|(x, y)| x != y));
            obs.hit("large_fetches_compared");
            if k < 4 { sig.push_str(&format!("{r:?}")); }
        }
        obs.sign(&sig);
        Ok(())
    });
    r.family("whole-tiff", 1500, 20000, |rng, obs, _| {
        let mut m = rand_model(rng);
        if m.layout == Layout::Huge { m.layout = Layout::Shuffled; }
        let n = rng.us(1, 4);
        for _ in 0..n { let s = crate::image::rand_spec(rng); crate::image::add_image(rng, &mut m, s); }
        let built = m.build(rng);
        let plain = block_on(crate::props::tiles::open(&Mem::new(built.file.clone()), false))?;
        let mem = Mem::new(built.file.clone());
        let (c, i, mu) = rand_cache(rng, mem.clone());
        let t = block_on(async {
            let mut r = TiffMetadataReader::try_open(&c).await?;
            r.read(&c).await
        }).map_err(|e| format!("read through cache(initial {i}, multiplier {mu}): {e}"))?;
        ensure!(canon_tiff(&t) == canon_tiff(&plain), "metadata read through cache(initial {i}, multiplier {mu}) differs from a direct read");
        obs.hit("whole_tiff_compared");
        obs.sign(&format!("{i}{mu}{}", built.file.len));
        Ok(())
    });
    r.family("many-misses", 120, 2000, |rng, obs, _| many_misses(rng, obs));
    r.family("interleaved", 4000, 60000, |rng, obs, _| {
        let len = rng.us(1, 500);
        let data = rng.bytes(len);
        let gate = Gate::new(Sparse::dense(data.clone()));
        let (c, i, mu) = rand_cache(rng, gate.clone());
        interleave(rng, obs, &gate, &c, &data, &format!("initial {i} multiplier {mu} len {len}"), false)
    });
    r.finish("exploration", json!({}))
}

/// Hundreds of small misses (the multiplier makes every block tiny), then reads over all blocks;
/// bytes and requests compared.
fn many_misses(rng: &mut Rng, obs: &mut Obs) -> Case {
    let len = rng.us(2000, 20000);
    let data = rng.bytes(len);
    let mem = Mem::new(Sparse::dense(data.clone()));
    let (init, mult) = (rng.range(1, 40), *rng.pick(&[0.0, 0.0, 0.0001, 0.001]));
    let c = ReadaheadMetadataCache::new(mem.clone()).with_initial_size(init).with_multiplier(mult);
    let (mut have, mut log, mut need, mut pos) = (0u64, vec![], vec![], 0u64);
    let ctx = format!("initial {init} multiplier {mult} len {len}");
    let steps = rng.us(100, 600);
    for k in 0..steps {
        let r = if rng.chance(1, 12) {
            let s = rng.below(have + 1);
            s..(s + rng.below(have - s + 1))
        } else {
            let s = pos;
            pos = (pos + rng.range(1, 30)).min(len as u64);
            s.saturating_sub(if rng.chance(1, 4) { rng.below(200) } else { 0 })..pos
        };
        let got = block_on(c.fetch(r.clone())).map_err(|e| format!("{ctx}: fetch {r:?}: {e}"))?;
        ensure!(got == data[r.start as usize..r.end as usize], "{ctx}: fetch #{k} {r:?} after {} requests returned wrong bytes ({} of them)", log.len(), got.len());
        obs.hit("fetches_compared");
        let evs = mem.take_log();
        ensure!(evs.len() == (r.end > have) as usize, "{ctx}: fetch #{k} {r:?} with cached prefix 0..{have} issued {evs:?}");
        for e in evs {
            let Ev::Get(q) = e else { return Err(format!("unexpected request {e:?}")) };
            let got = q.end.min(len as u64).saturating_sub(q.start);
            log.push((q.clone(), got));
            need.push(r.end);
            have = have.max(q.start + got);
            obs.hit("requests_checked");
        }
    }
    check_log(&log, len as u64, init, mult, &need).map_err(|e| format!("{ctx}: {}", &e[..e.len().min(500)]))?;
    if log.len() > 100 { obs.hit("hundreds_of_blocks"); }
    obs.sign(&format!("{ctx}{}{have}", log.len()));
    Ok(())
}

/// Drive concurrent fetches under a random schedule; with `faults`, requests may fail and fetches
/// may be cancelled. Checks results, error attribution and progress.
fn interleave(rng: &mut Rng, obs: &mut Obs, gate: &Gate, c: &ReadaheadMetadataCache<Gate>, data: &[u8], ctx: &str, faults: bool) -> Case {
    let len = data.len() as u64;
    let n = if rng.chance(1, 25) { rng.us(7, 40) } else { rng.us(2, 6) };
    let mut rs: Vec<Range<u64>> = vec![];
    let mut tasks = Tasks::new();
    let mut cancelled = vec![];
    let mut trace = String::new();
    let mut steps = 0;
    let mut pending_spawn: Vec<Range<u64>> = (0..n).map(|_| rand_range(rng, len, true)).collect();
    let mut completed_err: std::collections::HashSet<u64> = Default::default();
    loop {
        steps += 1;
        ensure!(steps < 4000, "{ctx}: no end in sight: {trace}");
        let run = tasks.runnable();
        let wait = gate.waiting();
        let alive = tasks.alive();
        let mut acts: Vec<(u8, u64)> = vec![];
        acts.extend(run.iter().map(|i| (0u8, *i as u64)));
        acts.extend(wait.iter().map(|i| (1u8, *i)));
        if !pending_spawn.is_empty() { acts.push((2, 0)); }
        if faults && !alive.is_empty() && rng.chance(1, 6) {
            acts.extend(alive.iter().map(|i| (3u8, *i as u64)));
        }
        if acts.is_empty() {
            ensure!(alive.is_empty(), "{ctx}: fetches {alive:?} are stuck: nothing runnable, no request in flight. {trace}");
            break;
        }
        let (k, i) = *rng.pick(&acts);
        match k {
            0 => {
                trace.push_str(&format!("p{i} "));
                tasks.poll(i as usize);
            }
            1 => {
                let err = faults && rng.chance(1, 3);
                if err { completed_err.insert(i); }
                trace.push_str(&format!("{}{i} ", if err { "E" } else { "C" }));
                gate.complete(i, if err { None } else { Some(u64::MAX) });
                // a spurious wake-up of everyone is always allowed
            }
            2 => {
                let r = pending_spawn.pop().unwrap();
                trace.push_str(&format!("s{}:{r:?} ", rs.len()));
                rs.push(r.clone());
                tasks.spawn(async move { c.fetch(r).await });
            }
            _ => {
                trace.push_str(&format!("x{i} "));
                cancelled.push(i as usize);
                tasks.cancel(i as usize);
                obs.hit("fetches_cancelled");
            }
        }
    }
    obs.state("schedules", hash_bytes(trace.as_bytes()));
    obs.sign(&trace);
    obs.sample(|| format!("{ctx}: {trace}"));
    let mut errs: std::collections::HashSet<u64> = Default::default();
    for (k, r) in rs.iter().enumerate() {
        if cancelled.contains(&k) { continue; }
        let out = tasks.tasks[k].out.take().ok_or(format!("{ctx}: fetch {k} never finished: {trace}"))?;
        match out {
            Ok(b) => {
                let s = r.start.min(len) as usize;
                let e = (r.end.min(len) as usize).max(s);
                ensure!(b == data[s..e], "{ctx}: concurrent fetch {k} {r:?} returned {} bytes {:?}, expected {} {:?}. schedule {trace}", b.len(), &b[..b.len().min(40)], e - s, &data[s..e.min(s + 40)]);
                obs.hit("concurrent_fetches_compared");
            }
            Err(e) => {
                let id = is_injected(&e).ok_or(format!("{ctx}: fetch {k} {r:?} failed with {e}: {trace}"))?;
                ensure!(completed_err.contains(&id), "{ctx}: fetch {k} reports failure of request {id}, which did not fail");
                ensure!(errs.insert(id), "{ctx}: the failure of request {id} is reported twice: {trace}");
                obs.hit("errors_reported");
            }
        }
    }
    if faults {
        // every failed request that was not abandoned is reported by exactly one fetch
        let ev = gate.inner.lock().unwrap().events.clone();
        let failed = ev.iter().filter(|e| matches!(e, GateEv::Err(_))).count();
        ensure!(failed == errs.len(), "{ctx}: {failed} requests failed, {} failures reported: {trace}", errs.len());
        if cancelled.iter().any(|_| true) { obs.hit("schedules_with_cancellation"); }
    }
    Ok(())
}

/// Offline check of the requests a cache made: sequential, contiguous, without overlap, sized by
/// the documented policy.
fn check_log(log: &[(Range<u64>, u64)], len: u64, init: u64, mult: f64, need: &[u64]) -> Case {
    let mut have = 0u64;
    for (k, (r, got)) in log.iter().enumerate() {
        ensure!(r.start == have, "request #{k} {r:?} does not start at the end of the cached prefix {have} (log {log:?})");
        let needed = need[k].saturating_sub(have);
        let policy = if have == 0 { init } else { (have as f64 * mult).round() as u64 };
        let want = needed.max(policy);
        let size = r.end - r.start;
        let want_end = have.saturating_add(want);
        let ok = r.end == want_end || (size.abs_diff(want) <= 1 && size >= needed);
        ensure!(ok, "request #{k} {r:?} asks for {size} bytes; needed {needed}, policy size {policy} (cached {have}, initial {init}, multiplier {mult})");
        let avail = r.end.min(len).saturating_sub(r.start);
        ensure!(*got == avail, "HARNESS: source returned {got} of {avail}");
        have += got;
    }
    Ok(())
}

pub fn c10(mut r: Runner) -> i32 {
    r.rule("case = one cache configuration and fetch sequence whose request log is checked offline: contiguous from 0, never refetching, no request for cached ranges, sizes by the documented policy (+-1 for rounding); distinct by (configuration, ranges)");
    r.require(&["requests_checked", "hits_without_request", "misses_with_one_request", "policy_sized_requests", "requests_beyond_one_mib", "need_sized_requests", "hundreds_of_blocks", "requests_after_faults"]);
    r.family("sequences", 10000, 150000, |rng, obs, _| {
        let len = rng.us(1, 4000) as u64;
        let data = rng.bytes(len as usize);
        let mem = Mem::new(Sparse::dense(data.clone()));
        let (c, init, mult) = rand_cache(rng, mem.clone());
        let mut have = 0u64;
        let mut log = vec![];
        let mut need = vec![];
        let mut sig = format!("{init}:{mult}:");
        let n = rng.us(1, 30);
        let seq = rng.chance(1, 3);
        let mut pos = 0u64;
        for k in 0..n {
            let r = if seq {
                let s = pos;
                pos = (pos + rng.below(60)).min(len);
                s..pos
            } else {
                rand_range(rng, len, rng.clone().chance(1, 6))
            };
            block_on(c.fetch(r.clone())).map_err(|e| format!("fetch {r:?}: {e}"))?;
            let evs = mem.take_log();
            if r.end <= have {
                ensure!(evs.is_empty(), "fetch #{k} {r:?} is inside the cached prefix 0..{have} but issued {evs:?}");
                obs.hit("hits_without_request");
            } else {
                ensure!(evs.len() == 1, "fetch #{k} {r:?} with cached prefix 0..{have} issued {evs:?}");
                obs.hit("misses_with_one_request");
            }
            for e in evs {
                let Ev::Get(q) = e else { return Err(format!("unexpected request {e:?}")) };
                let got = q.end.min(len).saturating_sub(q.start);
                let needed = r.end.saturating_sub(have);
                obs.hit("requests_checked");
                obs.hit(if q.end - q.start > needed { "policy_sized_requests" } else { "need_sized_requests" });
                log.push((q.clone(), got));
                need.push(r.end);
                have = have.max(q.start + got);
            }
            if k < 4 { sig.push_str(&format!("{r:?}")); }
        }
        check_log(&log, len, init, mult, &need)?;
        obs.sign(&sig);
        obs.sample(|| format!("{sig} -> {log:?}"));
        Ok(())
    });
    // prefixes of many MiB: the policy has no cap
    r.family("large", 3, 30, |rng, obs, _| {
        let len = rng.range(3 << 20, 24 << 20);
        let data = Sparse::dense(rng.bytes(len as usize));
        let mem = Mem::new(data);
        let init = *rng.pick(&[32 * 1024u64, 64 * 1024, 100_003, 1 << 20, (1 << 20) + 1, 3 << 20]);
        let mult = *rng.pick(&[2.0f64, 2.0, 1.0, 1.5, 4.0, 0.25]);
        let mut c = ReadaheadMetadataCache::new(mem.clone());
        if init != 32 * 1024 || rng.chance(1, 2) { c = c.with_initial_size(init); }
        if mult != 2.0 || rng.chance(1, 2) { c = c.with_multiplier(mult); }
        let (mut have, mut log, mut need) = (0u64, vec![], vec![]);
        for _ in 0..40 {
            if have >= len { break; }
            // just past what is cached, so that the policy decides the size
            let e = (have + rng.range(1, 5000)).min(len);
            let r = e.saturating_sub(rng.range(0, 9000))..e;
            block_on(c.fetch(r.clone())).map_err(|e| format!("fetch {r:?}: {e}"))?;
            let evs = mem.take_log();
            ensure!(evs.len() == 1, "fetch {r:?} with cached prefix 0..{have} issued {evs:?}");
            let Ev::Get(q) = &evs[0] else { return Err(format!("unexpected request {:?}", evs[0])) };
            let got = q.end.min(len).saturating_sub(q.start);
            if have > 1 << 20 { obs.hit("requests_beyond_one_mib"); }
            log.push((q.clone(), got));
            need.push(r.end);
            have = q.start + got;
            obs.hit("requests_checked");
        }
        check_log(&log, len, init, mult, &need)?;
        let sig = format!("{init}:{mult}:{len}");
        obs.sign(&sig);
        obs.sample(|| format!("{sig} -> {log:?}"));
        Ok(())
    });
    r.family("many-misses", 120, 2000, |rng, obs, _| many_misses(rng, obs));
    // requests that fail and fetches that are cancelled in between do not change the policy
    r.family("faulty", 3000, 40000, |rng, obs, _| {
        let len = rng.us(1, 600);
        let data = rng.bytes(len);
        let gate = Gate::new(Sparse::dense(data.clone()));
        let (c, init, mult) = rand_cache(rng, gate.clone());
        let ctx = format!("initial {init} multiplier {mult} len {len}");
        let mut events = vec![];
        for _ in 0..rng.us(1, 3) {
            interleave(rng, obs, &gate, &c, &data, &ctx, true)?;
            events.append(&mut gate.inner.lock().unwrap().events);
        }
        let (mut have, mut open) = (0u64, 0);
        for e in &events {
            match e {
                GateEv::Start(_, r) => {
                    open += 1;
                    ensure!(open == 1, "{ctx}: two requests in flight at once: {:?}", events);
                    ensure!(r.start == have, "{ctx}: request {r:?} with prefix 0..{have} cached: bytes are fetched twice or skipped; events {:?}", events);
                    let policy = if have == 0 { init } else { (have as f64 * mult).round() as u64 };
                    ensure!((r.end - r.start).saturating_add(1) >= policy, "{ctx}: request {r:?} is smaller than the policy's {policy} bytes; events {:?}", events);
                    obs.hit("requests_after_faults");
                }
                GateEv::Ok(_, n) => { open -= 1; have += n }
                _ => open -= 1,
            }
        }
        Ok(())
    });
    // concurrent misses of the same bytes: the second waits for the first instead of refetching
    r.family("concurrent", 3000, 40000, |rng, obs, _| {
        let len = rng.us(1, 600);
        let data = rng.bytes(len);
        let gate = Gate::new(Sparse::dense(data.clone()));
        let (c, init, mult) = rand_cache(rng, gate.clone());
        interleave(rng, obs, &gate, &c, &data, &format!("initial {init} multiplier {mult} len {len}"), false)?;
        let g = gate.inner.lock().unwrap();
        let mut have = 0u64;
        let mut open = 0;
        for e in &g.events {
            match e {
                GateEv::Start(_, r) => {
                    open += 1;
                    ensure!(r.start == have, "concurrent request {r:?} with prefix 0..{have} cached: bytes are fetched twice or skipped; events {:?}", g.events);
                    ensure!(open == 1, "two requests in flight at once: {:?}", g.events);
                    obs.hit("requests_checked");
                }
                GateEv::Ok(_, n) => { open -= 1; have += n }
                _ => return Err("HARNESS: unexpected event".into()),
            }
        }
        Ok(())
    });
    r.finish("exploration", json!({}))
}

pub fn c11(mut r: Runner) -> i32 {
    r.rule("case = one random schedule of concurrent cache fetches with injected request failures and cancelled fetches; distinct by schedule (sequence of polls, completions, failures, cancellations)");
    r.require(&["concurrent_fetches_compared", "errors_reported", "fetches_cancelled", "schedules_with_cancellation", "recovered_fetches", "dropped_requests"]);
    let go = |rng: &mut Rng, obs: &mut Obs| -> Case {
        let len = rng.us(1, 500);
        let data = rng.bytes(len);
        let gate = Gate::new(Sparse::dense(data.clone()));
        let (c, i, mu) = rand_cache(rng, gate.clone());
        let ctx = format!("initial {i} multiplier {mu} len {len}");
        let rounds = rng.us(1, 3);
        for _ in 0..rounds {
            gate.inner.lock().unwrap().events.clear();
            interleave(rng, obs, &gate, &c, &data, &ctx, true)?;
            obs.add("dropped_requests", gate.inner.lock().unwrap().events.iter().filter(|e| matches!(e, GateEv::Cancelled(_))).count() as u64);
        }
        // afterwards the cache still serves correct bytes
        for _ in 0..4 {
            let r = rand_range(rng, len as u64, true);
            let mut t = Tasks::new();
            let rr = r.clone();
            let c = &c;
            t.spawn(async move { c.fetch(rr).await });
            let mut steps = 0;
            while t.tasks[0].out.is_none() {
                steps += 1;
                ensure!(steps < 100, "{ctx}: fetch {r:?} after faults is stuck");
                for g in gate.waiting() { gate.complete(g, Some(u64::MAX)); }
                let run = t.runnable();
                ensure!(!run.is_empty() || !gate.waiting().is_empty(), "{ctx}: fetch {r:?} after faults is stuck");
                for i in run { t.poll(i); }
            }
            let b = t.tasks[0].out.take().unwrap().map_err(|e| format!("{ctx}: fetch {r:?} after faults fails: {e}"))?;
            let s = r.start.min(len as u64) as usize;
            let e = (r.end.min(len as u64) as usize).max(s);
            ensure!(b == data[s..e], "{ctx}: fetch {r:?} after faults returned wrong bytes");
            obs.hit("recovered_fetches");
        }
        let _ = mix(0);
        Ok(())
    };
    r.family("faulty-schedules", 8000, 150000, |rng, obs, _| go(rng, obs));
    r.finish("exploration", json!({}))
}
