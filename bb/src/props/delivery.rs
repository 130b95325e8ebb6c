//! C04 C05 C06 C07 C08 C17: what reaches whom.

use crate::client::*;
use crate::hist::{self, Hist};
use crate::mix::{self, Cfg, BASE};
use crate::mq::{self, M};
use crate::proc::*;
use crate::props::long;
use crate::report::*;
use crate::util::*;
use serde_json::json;
use std::collections::HashSet;
use std::sync::Arc;

const RULE: &str = "random concurrent histories of many clients against the real broker process; non-trivial: several connections and at least one delivery required by the oracle; distinct: by the interleaving of publishers the receivers observed";

pub fn c05() -> Report {
    let r = Report::new("C05", RULE);
    let big = Cfg { name: "sizes", sizes: 2, clients: (2, 5), ops: (8, 25), w: [40, 0, 18, 6, 10, 2, 5], slow: 5, ..BASE };
    let burst = Cfg { name: "bursts", sizes: 0, burst: (100, 900), clients: (3, 7), ops: (4, 12), topics: (1, 3), w: [10, 30, 15, 5, 10, 2, 5], slow: 40, ..BASE };
    let crowd = Cfg { name: "crowd", sizes: 0, clients: (30, 60), ops: (5, 20), listeners: (1, 4), ..BASE };
    let leave = Cfg { name: "leave", sizes: 0, clients: (3, 10), ops: (10, 40), w: [30, 10, 25, 10, 5, 15, 3], ..BASE };
    let cfgs = [BASE, big, burst, crowd, leave];
    let secs = budget(25.0, 900.0);
    long::with_idle(&r, secs, || {
        run_many(&r, 4, secs, 14, 1 << 40, |i, seed| match i {
            0 => long::volume(&r, i, seed, &["loss"]),
            1 => long::crowd(&r, i, seed, false),
            2 => long::collector(&r, i, seed),
            3 => empty_payloads(&r, i, seed, &["loss"]),
            4 => big_small(&r, i, seed, true, &["loss"]),
            6 => long::repeats(&r, i, seed),
            7 => long::leavers(&r, i, seed, &["loss"]),
            _ if i % 12 == 8 => long::leavers(&r, i, seed, &["loss"]),
            _ if i % 12 == 9 => long::repeats(&r, i, seed),
            _ if i % 12 == 11 => empty_payloads(&r, i, seed, &["loss"]),
            _ if i % 6 == 5 => hand_over(&r, i, seed),
            _ => mix::scenario(&r, i, seed, &cfgs[i as usize % 6], &["loss"], true),
        })
    });
    r
}

/// Publishers that leave right after their last publication, by every orderly way; subscribers
/// that stop reading for a while and resume. Nothing may be missing.
fn hand_over(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 3);
    let o = Opts::diverse(&mut rng, l);
    let replay = json!({"scenario": i, "seed": seed, "kind": "hand_over"});
    let b = match Broker::start(&o) {
        Ok(b) => Arc::new(b),
        Err(e) => return r.inconclusive(e),
    };
    let mut go = || -> Result<(usize, Vec<hist::Viol>), Stop> {
        let mut all = vec![];
        let ns = rng.range(1, 4);
        for k in 0..ns {
            let a = b.addr(&mut rng);
            let mut c = Client::connect(&b, a, &format!("s{}", k), &mut rng)?;
            c.sub1("t/#");
            c.wait_answers()?;
            all.push(c);
        }
        // the first subscriber pauses, for less than what its queue and socket hold, and for more
        all[0].set_paused(true);
        let np = rng.range(1, 5);
        for k in 0..np {
            let a = b.addr(&mut rng);
            let mut c = Client::connect(&b, a, &format!("p{}", k), &mut rng)?;
            let n = rng.range(1, 200);
            let sz = *rng.pick(&[8, 60, 1000, 5000]);
            let mut buf = vec![];
            for _ in 0..n {
                let t = format!("t/{}", rng.below(3));
                buf.extend(c.pub_bytes(&t, sz, 0, false, false));
            }
            match rng.below(3) {
                0 => {
                    buf.extend(mq::DISCONNECT);
                    c.mark_end();
                    c.raw(&buf);
                }
                1 => {
                    c.mark_end();
                    c.raw(&buf);
                    let _ = c.stream.shutdown(std::net::Shutdown::Write);
                }
                _ => {
                    c.raw(&buf);
                    c.mark_end();
                    c.raw(&mq::DISCONNECT);
                    let _ = c.stream.shutdown(std::net::Shutdown::Write);
                }
            }
            all.push(c);
        }
        sleep_ms(rng.range(0, 150) as u64);
        all[0].set_paused(false);
        let mut probe = Client::connect(&b, b.addrs[0], "probe", &mut rng)?;
        for c in &all[ns..] {
            c.wait_closed()?;
        }
        probe.barrier()?;
        all.push(probe);
        let (n, v, _) = hist::judge(&all)?;
        Ok((n, v))
    };
    match go() {
        Ok((n, v)) => {
            r.eval(seed);
            r.count("deliveries that had to happen", n as u64);
            r.count("publishers that left at once", 1);
            for x in v.into_iter().filter(|x| x.kind == "loss") {
                r.violation("hand_over:loss", x.msg, replay.clone());
            }
        }
        Err(s) => r.stop_to("hand_over", s, replay),
    }
}

pub fn c06() -> Report {
    let r = Report::new("C06", RULE);
    let churn = Cfg { name: "churn", sizes: 0, clients: (4, 12), ops: (20, 80), topics: (2, 5), w: [30, 4, 25, 25, 5, 10, 3], rude: 60, burst: (5, 40), slow: 10, ..BASE };
    let overlap = Cfg { name: "overlap", sizes: 0, topics: (1, 3), w: [40, 5, 35, 15, 5, 1, 2], ops: (20, 60), ..BASE };
    let big = Cfg { name: "sizes", sizes: 2, clients: (2, 5), ops: (8, 25), w: [40, 0, 18, 6, 10, 2, 5], slow: 5, ..BASE };
    let cfgs = [BASE, churn.clone(), overlap, big, churn];
    run_many(&r, 4, budget(25.0, 900.0), 10, 1 << 40, |i, seed| {
        if i == 0 {
            long::volume(&r, i, seed, &["phantom", "altered", "misrouted", "dup"]);
        } else if i == 2 || i % 12 == 10 {
            long::repeats(&r, i, seed);
        } else if i == 1 {
            big_small(&r, i, seed, true, &["phantom", "altered", "misrouted", "dup"]);
        } else if i % 6 == 5 {
            empty_payloads(&r, i, seed, &["phantom", "altered", "misrouted", "dup", "loss", "flags"]);
        } else {
            mix::scenario(&r, i, seed, &cfgs[i as usize % 6], &["phantom", "altered", "misrouted", "dup"], false);
        }
    });
    r
}

/// Payloads too short to carry an id, each on its own topic; odd topics.
fn empty_payloads(r: &Report, i: u64, seed: u64, kinds: &[&str]) {
    let mut rng = Rng::new(seed);
    let o = Opts::diverse(&mut rng, 1);
    let replay = json!({"scenario": i, "seed": seed, "kind": "short payloads"});
    let b = match Broker::start(&o) {
        Ok(b) => Arc::new(b),
        Err(e) => return r.inconclusive(e),
    };
    let mut go = || -> Result<(usize, Vec<hist::Viol>), Stop> {
        let mut all = vec![];
        for k in 0..3 {
            let mut c = Client::connect(&b, b.addrs[0], &format!("s{}", k), &mut rng)?;
            c.sub(&[(["#", "e/#", "e/+"][k].to_string(), 0)]);
            c.wait_answers()?;
            all.push(c);
        }
        for k in 0..3 {
            let mut p = Client::connect(&b, b.addrs[0], &format!("p{}", k), &mut rng)?;
            p.split = rng.chance(50);
            let mut buf = vec![];
            for j in 0..rng.range(10, 120) {
                let tail: String = match rng.below(5) {
                    0 => "x".repeat(rng.range(1, 300)),
                    1 => "€".repeat(rng.range(1, 50)),
                    2 => "x".repeat(rng.range(20000, 65500)),
                    3 => "\u{1F980} ".repeat(rng.range(1, 20)),
                    _ => String::new(),
                };
                let t = format!("e/{}-{}{}", k, j, tail);
                let sz = if rng.chance(70) { rng.below(8) } else { rng.range(8, 5000) };
                let (q, retain) = (rng.below(3) as u8, rng.chance(40));
                buf.extend(p.pub_bytes(&t, sz, q, retain, q > 0 && rng.chance(40)));
            }
            p.raw(&buf);
            p.barrier()?;
            all.push(p);
        }
        let (n, v, _) = hist::judge(&all)?;
        Ok((n, v))
    };
    match go() {
        Ok((n, v)) => {
            r.eval(seed);
            r.count("short or oddly named publications required", n as u64);
            for x in v {
                if kinds.contains(&x.kind) {
                    r.violation(&format!("short:{}", x.kind), x.msg, replay.clone());
                }
            }
        }
        Err(s) => r.stop_to("short", s, replay),
    }
}

/// Large messages directly followed by small ones, on few topics.
fn big_small(r: &Report, i: u64, seed: u64, huge: bool, kinds: &[&str]) {
    let mut rng = Rng::new(seed);
    let o = Opts { threads: *rng.pick(&[1, 1, 2, 4]), ..Opts::diverse(&mut rng, 1) };
    let replay = json!({"scenario": i, "seed": seed, "kind": "big and small"});
    let b = match Broker::start(&o) {
        Ok(b) => Arc::new(b),
        Err(e) => return r.inconclusive(e),
    };
    let mut go = || -> Result<(usize, Vec<hist::Viol>, u64), Stop> {
        let mut all = vec![];
        for k in 0..rng.range(1, 4) {
            let mut c = Client::connect(&b, b.addrs[0], &format!("s{}", k), &mut rng)?;
            c.sub(&[(["#", "o/#", "o/+", "o/0"][rng.below(4)].to_string(), 0)]);
            c.wait_answers()?;
            all.push(c);
        }
        let mut pubs = vec![];
        for k in 0..rng.range(1, 3) {
            pubs.push(Client::connect(&b, b.addrs[0], &format!("p{}", k), &mut rng)?);
        }
        for round in 0..if huge { 3 } else { rng.range(6, 16) } {
            for p in pubs.iter_mut() {
                let mut buf = vec![];
                for _ in 0..if huge { 1 } else { rng.range(1, 4) } {
                    let t = format!("o/{}", rng.below(2));
                    let mut big = *rng.pick(&[1000, 5000, 17000, 66000, 70000, 132000, 270000, 600000]);
                    if huge {
                        big = [(16 << 20) + 10, (1 << 20) + 10, 34_000_000][round];
                    }
                    buf.extend(p.pub_bytes(&t, big, 0, false, false));
                    for _ in 0..rng.range(1, 3) {
                        buf.extend(p.pub_bytes(&t, rng.range(8, 60), 0, false, false));
                    }
                }
                p.raw(&buf);
            }
            for p in pubs.iter_mut() {
                p.barrier()?;
            }
        }
        all.extend(pubs);
        let (n, v, _) = hist::judge(&all)?;
        Ok((n, v, mix::fingerprint(&all)))
    };
    match go() {
        Ok((n, v, d)) => {
            r.eval(d);
            r.count("large and small publications required", n as u64);
            for x in v {
                if kinds.contains(&x.kind) {
                    r.violation(&format!("big and small:{}", x.kind), x.msg, replay.clone());
                }
            }
        }
        Err(s) => r.stop_to("big and small", s, replay),
    }
}

pub fn c07() -> Report {
    let r = Report::new("C07", RULE);
    let burst = Cfg { name: "bursts", sizes: 0, burst: (100, 600), clients: (3, 7), ops: (4, 12), topics: (1, 3), w: [20, 30, 15, 5, 10, 2, 5], slow: 40, listeners: (1, 3), ..BASE };
    let mixed = Cfg { name: "mixed sizes", sizes: 2, clients: (2, 6), ops: (30, 80), topics: (1, 2), w: [60, 5, 12, 4, 5, 1, 3], slow: 10, ..BASE };
    let crowd = Cfg { name: "crowd", sizes: 0, clients: (20, 40), ops: (10, 30), topics: (1, 3), listeners: (1, 4), ..BASE };
    let cfgs = [burst, mixed, BASE, crowd];
    run_many(&r, 4, budget(25.0, 900.0), 8, 1 << 40, |i, seed| {
        match i {
            0 => long::volume(&r, i, seed, &["order"]),
            _ if i % 5 == 4 => big_small(&r, i, seed, false, &["order"]),
            _ => mix::scenario(&r, i, seed, &cfgs[i as usize % 4], &["order"], false),
        }
    });
    r
}

pub fn c17() -> Report {
    let r = Report::new("C17", "random publications with every QoS, RETAIN and DUP, to subscriptions of every requested QoS, also replaced ones; non-trivial: at least one delivery; distinct: by observed interleaving");
    let a = Cfg { name: "flags", sizes: 0, ops: (20, 80), topics: (1, 4), w: [50, 3, 25, 8, 5, 2, 2], burst: (5, 20), ..BASE };
    run_many(&r, 4, budget(15.0, 300.0), 8, 1 << 40, |i, seed| {
        let mut c = a.clone();
        if i % 2 == 1 {
            c.sizes = 2;
            c.ops = (10, 30);
        }
        if i == 1 || i % 8 == 5 {
            return empty_payloads(&r, i, seed, &["flags", "granted", "altered"]);
        }
        mix::scenario(&r, i, seed, &c, &["flags", "granted", "altered"], false);
    });
    r
}

fn universe() -> (Vec<String>, Vec<String>) {
    let tl = ["", "a", "b", "$x"];
    let fl = ["", "a", "b", "$x", "+"];
    fn words(l: &[&str], n: usize) -> Vec<Vec<String>> {
        if n == 0 {
            return vec![vec![]];
        }
        let mut v = vec![];
        for w in words(l, n - 1) {
            for x in l {
                let mut y = w.clone();
                y.push(x.to_string());
                v.push(y);
            }
        }
        v
    }
    let mut t = vec![];
    let mut f = vec![];
    for n in 1..=3 {
        t.extend(words(&tl, n).into_iter().map(|w| w.join("/")).filter(|s| !s.is_empty()));
        f.extend(words(&fl, n).into_iter().map(|w| w.join("/")).filter(|s| !s.is_empty()));
    }
    for n in 0..=2 {
        f.extend(words(&fl, n).into_iter().map(|mut w| {
            w.push("#".into());
            w.join("/")
        }));
    }
    (t, f)
}

pub fn c04() -> Report {
    let r = Report::new(
        "C04",
        "exhaustive: every topic of up to 3 levels over {empty,a,b,$x} against every filter of up to 3 levels over {empty,a,b,$x,+} with and without final #, one client per filter; random: clients with random sets of filters (deep, long, Unicode), changing between rounds of publications. An evaluation is one (client, publication) pair whose delivery or non-delivery was checked; distinct: distinct (filter set, topic) pairs with a wildcard filter or a match",
    );
    exhaustive(&r);
    if !r.stopped() {
        run_many(&r, 4, budget(15.0, 600.0), 8, 1 << 40, |i, seed| random_sets(&r, i, seed));
    }
    r
}

fn note_pairs(r: &Report, h: &Hist) {
    for c in &h.conns {
        let mut fs: Vec<&str> = c.intervals.iter().map(|i| i.filter.as_str()).collect();
        fs.sort();
        if fs.is_empty() {
            continue;
        }
        let key = hash_bytes(1, fs.join("\u{1}").as_bytes());
        r.evals(h.pubs.len() as u64);
        for p in h.pubs.values() {
            if fs.iter().any(|f| f.contains('+') || f.contains('#') || mq::matches(f, &p.topic) != M::No) {
                r.nontrivial(hash_bytes(key, p.topic.as_bytes()));
            }
        }
    }
}

fn finish_c04(r: &Report, ctx: &str, res: Result<(usize, Vec<hist::Viol>, Hist), Stop>, replay: serde_json::Value) {
    match res {
        Ok((n, v, h)) => {
            r.count("deliveries that had to happen", n as u64);
            r.count("filters", h.conns.iter().map(|c| c.intervals.len() as u64).sum());
            note_pairs(r, &h);
            for x in v {
                if ["loss", "misrouted", "dup", "phantom"].contains(&x.kind) {
                    r.violation(&format!("{}:{}", ctx, x.kind), x.msg, replay.clone());
                }
            }
            if let Some(m) = h.parent_missing() {
                r.violation("known:hash-parent", m, replay);
            }
        }
        Err(s) => r.stop_to(ctx, s, replay),
    }
}

fn exhaustive(r: &Report) {
    let (topics, filters) = universe();
    let mut rng = Rng::new(r.seed);
    let b = match Broker::start(&Opts { listeners: 2, ..Opts::default() }) {
        Ok(b) => Arc::new(b),
        Err(e) => return r.inconclusive(e),
    };
    let replay = json!({"kind": "exhaustive", "topics": topics.len(), "filters": filters.len()});
    let mut go = || -> Result<(usize, Vec<hist::Viol>, Hist), Stop> {
        let mut all = vec![];
        let mut order = filters.clone();
        rng.shuffle(&mut order);
        for (k, f) in order.iter().enumerate() {
            let a = b.addr(&mut rng);
            let mut c = Client::connect(&b, a, &format!("x{}", k), &mut rng)?;
            c.sub1(f);
            all.push(c);
        }
        for c in &all {
            c.wait_answers()?;
        }
        let mut p = Client::connect(&b, b.addrs[0], "pub", &mut rng)?;
        let mut ts = topics.clone();
        rng.shuffle(&mut ts);
        for t in &ts {
            p.publish(t, 16);
        }
        p.barrier()?;
        for c in all.iter_mut() {
            c.barrier()?;
        }
        all.push(p);
        hist::judge(&all)
    };
    let res = go();
    r.count("exhaustive pairs (filter, topic)", (topics.len() * filters.len()) as u64);
    r.sample(json!({"exhaustive": true, "topics": topics.len(), "filters": filters.len()}));
    finish_c04(r, "exhaustive", res, replay);
}

fn random_sets(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 2);
    let o = Opts::diverse(&mut rng, l).chatty(&mut rng, 10);
    let b = match Broker::start(&o) {
        Ok(b) => Arc::new(b),
        Err(e) => return r.inconclusive(e),
    };
    let replay = json!({"scenario": i, "seed": seed, "kind": "random filter sets"});
    let style = if i == 2 { 4 } else { rng.below(5) };
    let (ut, uf) = universe();
    let mut topics: Vec<String> = match style {
        0 => ut.clone(),
        1 => mix::topic_pool(&mut rng, 20),
        2 => {
            // deep
            (0..20)
                .map(|_| {
                    let d = rng.range(4, 200);
                    (0..d).map(|_| *rng.pick(&["a", "b", "", "c"])).collect::<Vec<_>>().join("/")
                })
                .collect()
        }
        4 => {
            // as deep as topics get
            (0..rng.range(2, 8))
                .map(|k| {
                    let d = if k == 0 { rng.range(30000, 32700) } else { rng.range(500, 32000) };
                    let l = ["a", "", "b"][rng.below(3)];
                    let mut v = vec![l; d];
                    for _ in 0..rng.below(4) {
                        let at = rng.below(d);
                        v[at] = "x";
                    }
                    v.join("/")
                })
                .collect()
        }
        _ => {
            // levels that are prefixes, case variants, lookalikes of one another
            let lv = ["\u{feff}", "\u{feff}sensor", "sensor\u{200b}", "sensor ", " sensor", "\tsensor", "sensor\r\n", "\u{a0}", "SENSOR", "\u{c5}", "\u{212b}", "ı", "İ", "ß", "ss", "sensor", "sensor1", "Sensor", "sens", "$SYS", "$", "a b", " ", "é", "e\u{301}", "日本", "..", "+x".trim_start_matches('+'), "null", "%", "*", "\\"];
            (0..30)
                .map(|_| {
                    let d = rng.range(1, 5);
                    (0..d).map(|_| *rng.pick(&lv)).collect::<Vec<_>>().join("/")
                })
                .collect()
        }
    };
    topics.retain(|t| !t.is_empty());
    topics.sort();
    topics.dedup();
    let mut pick_filter = |rng: &mut Rng| -> String {
        if style == 0 {
            rng.pick(&uf).clone()
        } else {
            mix::filter_for(rng, &topics)
        }
    };
    let mut go = || -> Result<(usize, Vec<hist::Viol>, Hist), Stop> {
        let n = rng.range(2, 10);
        let mut all: Vec<Client> = vec![];
        let mut held: Vec<HashSet<String>> = vec![];
        for k in 0..n {
            let a = b.addr(&mut rng);
            all.push(Client::connect(&b, a, &format!("r{}", k), &mut rng)?);
            held.push(HashSet::new());
        }
        let mut p = Client::connect(&b, b.addrs[0], "pub", &mut rng)?;
        let mut last = String::new();
        for _ in 0..rng.range(2, 5) {
            for k in 0..n {
                for _ in 0..rng.below(4) {
                    if !held[k].is_empty() && rng.chance(40) {
                        let mut h: Vec<String> = held[k].iter().cloned().collect();
                        h.sort();
                        let f = rng.pick(&h).clone();
                        held[k].remove(&f);
                        all[k].unsub(&[f]);
                    } else {
                        let f = pick_filter(&mut rng);
                        held[k].insert(f.clone());
                        all[k].sub1(&f);
                    }
                }
                all[k].wait_answers()?;
            }
            mix::probe(&mut p, &topics, 16, &mut last, &mut rng);
            p.barrier()?;
        }
        for c in all.iter_mut() {
            c.barrier()?;
        }
        all.push(p);
        hist::judge(&all)
    };
    let res = go();
    if let Ok((n, _, h)) = &res {
        r.sample(json!({"scenario": i, "style": style, "topics": topics.len(), "required": n, "a filter": h.conns[0].intervals.first().map(|x| x.filter.chars().take(80).collect::<String>())}));
    }
    finish_c04(r, "random", res, replay);
}

// ---------------------------------------------------------------- C08

pub fn c08() -> Report {
    let r = Report::new(
        "C08",
        "random sequences of SUBSCRIBE and UNSUBSCRIBE (several, repeated, overlapping, invalid, unknown, very many filters per packet) by several clients sharing filters, each round followed by publications on every topic; an evaluation is one SUBSCRIBE or UNSUBSCRIBE whose answer and effect were checked; distinct: by the requests' content",
    );
    run_many(&r, 4, budget(20.0, 600.0), 8, 1 << 40, |i, seed| match i {
        0 => long::collector(&r, i, seed),
        _ => sub_unsub(&r, i, seed),
    });
    r
}

const INVALID: [&str; 12] = ["", "a#", "#/a", "a/#/b", "+a", "a+", "a/b+/c", "##", "a/#b", "++", "/#/", "a/+#"];

fn sub_unsub(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let o = Opts::diverse(&mut rng, 1);
    let b = match Broker::start(&o) {
        Ok(b) => Arc::new(b),
        Err(e) => return r.inconclusive(e),
    };
    let replay = json!({"scenario": i, "seed": seed, "kind": "subscribe/unsubscribe"});
    let pool = mix::topic_pool(&mut rng, 6);
    let mut topics = pool.clone();
    topics.push("zz".into());
    let many = rng.chance(15);
    let mut go = || -> Result<(usize, Vec<hist::Viol>, Hist), Stop> {
        let n = rng.range(2, 6);
        let mut all: Vec<Client> = vec![];
        // a narrow shared set of filters makes clients meet on the same ones
        let nf = rng.range(2, 7);
        let mut shared: Vec<String> = (0..nf).map(|_| mix::filter_for(&mut rng, &pool)).collect();
        if i == 2 || rng.chance(12) {
            // two long topics that differ in one place, and a filter for both
            let long = format!("{}/{}", rng.pick(&pool), "l".repeat(*rng.pick(&[300, 4100, 20_000, 33_000, 65_000])));
            let cut = rng.range(3, 200);
            let other: String = format!("{}m{}", &long[..long.len() - cut], &long[long.len() - cut + 1..]);
            shared.push(long.clone());
            shared.push(other.clone());
            shared.push(format!("{}/+", long));
            topics.push(long);
            topics.push(other);
            r.count("populations with filters of many kilobytes", 1);
        }
        let pick = |rng: &mut Rng| -> String {
            let f = rng.pick(&shared).clone();
            match rng.below(10) {
                // close to one that is held, but another string
                0 => format!("{}/", f.trim_end_matches("/#").trim_end_matches('#')).replace("#", "x"),
                1 => f.to_uppercase(),
                2 => f.replacen("a", "+", 1),
                3 => f.replacen("+", "a", 1),
                4 => f.rsplit_once('/').map_or(f.clone(), |x| x.0.to_string()),
                _ => f,
            }
        };
        for k in 0..n {
            let mut c = Client::connect(&b, b.addrs[0], &format!("u{}", k), &mut rng)?;
            c.split = rng.chance(30);
            all.push(c);
        }
        let mut p = Client::connect(&b, b.addrs[0], "pub", &mut rng)?;
        let mut last = String::new();
        for _ in 0..rng.range(4, 14) {
            let mut order: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut order);
            let concurrent = rng.chance(50);
            for k in order {
                for _ in 0..rng.below(3) {
                    let m = match rng.below(10) {
                        0..=5 => 1,
                        6..=8 => rng.range(2, 8),
                        _ if many => rng.range(200, 1200),
                        _ => rng.range(8, 40),
                    };
                    if rng.chance(60) {
                        let mut fs: Vec<(String, u8)> = vec![];
                        for j in 0..m {
                            let f = if rng.chance(15) {
                                rng.pick(&INVALID).to_string()
                            } else if m > 100 {
                                format!("many/{}/{}", k, j)
                            } else if !fs.is_empty() && rng.chance(15) {
                                rng.pick(&fs).0.clone()
                            } else {
                                pick(&mut rng)
                            };
                            fs.push((f, rng.below(3) as u8));
                        }
                        let mut x = hash_bytes(k as u64, b"s");
                        for f in &fs {
                            x = hash_bytes(x, f.0.as_bytes());
                        }
                        r.eval(x);
                        if fs.iter().any(|f| !mq::filter_valid(&f.0)) {
                            r.count("subscribes with an invalid filter", 1);
                        }
                        all[k].sub(&fs);
                    } else {
                        let mut fs: Vec<String> = (0..m).map(|j| if m > 100 { format!("many/{}/{}", k, j) } else { pick(&mut rng) }).collect();
                        if rng.chance(10) {
                            fs.push("never/subscribed/#".into());
                        }
                        fs.retain(|f| mq::filter_valid(f));
                        if fs.is_empty() {
                            continue;
                        }
                        let mut x = hash_bytes(k as u64, b"u");
                        for f in &fs {
                            x = hash_bytes(x, f.as_bytes());
                        }
                        r.eval(x);
                        all[k].unsub(&fs);
                    }
                }
                if !concurrent {
                    all[k].wait_answers()?;
                }
            }
            for c in &all {
                c.wait_answers()?;
            }
            mix::probe(&mut p, &topics, 12, &mut last, &mut rng);
            p.barrier()?;
        }
        for c in all.iter_mut() {
            c.barrier()?;
        }
        all.push(p);
        hist::judge(&all)
    };
    match go() {
        Ok((n, v, h)) => {
            r.count("deliveries that had to happen", n as u64);
            r.count("subscriptions acknowledged", h.conns.iter().map(|c| c.intervals.len() as u64).sum());
            r.count("subscriptions removed", h.conns.iter().map(|c| c.intervals.iter().filter(|i| i.unsub_op != usize::MAX).count() as u64).sum());
            r.sample(json!({"scenario": i, "topics": topics.iter().map(|t| t.chars().take(60).collect::<String>()).collect::<Vec<_>>(), "clients": h.conns.len(), "required deliveries": n, "filters of one client": h.conns[0].intervals.iter().take(6).map(|x| x.filter.chars().take(60).collect::<String>()).collect::<Vec<_>>()}));
            for x in v {
                if ["loss", "misrouted", "dup", "suback", "answers"].contains(&x.kind) {
                    r.violation(&format!("sub_unsub:{}", x.kind), x.msg, replay.clone());
                }
            }
        }
        Err(s) => r.stop_to("sub_unsub", s, replay),
    }
}
