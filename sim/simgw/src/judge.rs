/// What the gateway could think of its upstreams at some instant of [a, b]: for each, may it be ready, may it not be.
fn knew(h: &H, a: f64, b: f64) -> Vec<(bool, bool)> {
    h.know
        .iter()
        .map(|k| {
            let before = k.iter().filter(|(t, _)| *t < a).last().map(|x| x.1).unwrap_or(false);
            let within: Vec<bool> = k.iter().filter(|(t, _)| *t >= a && *t <= b).map(|x| x.1).collect();
            (before || within.iter().any(|v| *v), !before || within.iter().any(|v| !*v))
        })
        .collect()
}
fn envelope(r: &Resp) -> Option<(i64, Value)> {
    let v: Value = serde_json::from_slice(&r.body).ok()?;
    let o = v.as_object()?;
    if o.len() != 3 || o.get("jsonrpc")? != "2.0" || r.ctype != "application/json" {
        return None;
    }
    let e = o.get("error")?.as_object()?;
    if e.get("message")?.as_str()?.is_empty() {
        return None;
    }
    Some((e.get("code")?.as_i64()?, o.get("id")?.clone()))
}
fn judge(sc: &Scenario, h: &H, fin: bool) {
    let s = |k: &str| sc.p(k) as f64 / 1000.0;
    let stop = s("stop_ms");
    let (graceful, header, request) = (s("graceful_ms"), s("header_ms"), s("request_ms"));
    let deadline = header + request;
    check!(fin && h.done, "stuck", "the gateway or its clients did not come to an end");
    // every failed accept is waited out
    let errs: f64 = sc.faults.iter().map(|f| f.arg(1) as f64 * 0.11).sum();
    // ------------------------------------------------ shutdown
    let Some((served, ok)) = h.served else { violate("shutdown", format!("still serving {} s after the end of the grace period", 5)) };
    check!(ok, "shutdown", "the server ended with an error");
    check!(served >= stop - EPS, "shutdown", "the server ended at {served:.3}, before it was told to at {stop:.3}");
    check!(served <= stop + graceful + errs + EPS, "shutdown", "the server ended at {served:.3}, told to at {stop:.3} with {graceful} s of grace");
    let quiet = h.conns.values().filter(|c| c.accepted.is_some()).map(|c| c.gone.unwrap_or(f64::MAX)).fold(stop, f64::max);
    check!(served <= quiet + errs + EPS, "shutdown", "all connections were closed at {quiet:.3}, the server ended only at {served:.3}");
    for (i, c) in &h.conns {
        // an idle connection is closed at once, one in use when it is done
        if c.accepted.is_some_and(|a| a <= served) && served < stop + graceful - EPS {
            check!(c.gone.is_some_and(|g| g <= served + EPS), "shutdown", "the server ended at {served:.3}, told to at {stop:.3} with {graceful} s of grace, while connection {i} was open");
        }
    }
    let poll_bound = s("polltimeout_ms");
    check!(h.poller_end.is_some_and(|t| t <= stop + poll_bound + EPS) || h.poller_end.is_none() && served < stop + poll_bound + EPS, "shutdown", "the poller ended at {:?}, told to at {stop}", h.poller_end);
    // ------------------------------------------------ polls
    let cycle = h.know.len() as f64 * poll_bound + 2.0 * s("poll_ms") + EPS;
    for (u, p) in h.polls.iter().enumerate() {
        let mut last = 0.0;
        for t in p.iter().copied().chain([stop]) {
            check!(t - last <= cycle, "polls", "upstream {u} was not polled between {last:.3} and {t:.3}");
            last = t;
        }
    }
    // ------------------------------------------------ connections
    let max = sc.p("maxconn").max(1) as usize;
    let mut order: Vec<(usize, &Conn)> = h.conns.iter().map(|(i, c)| (*i, c)).collect();
    order.sort_by(|a, b| a.1.tried.total_cmp(&b.1.tried).then(a.1.accepted.unwrap_or(f64::MAX).total_cmp(&b.1.accepted.unwrap_or(f64::MAX))));
    let mut slots: Vec<f64> = vec![0.0; max];
    for (i, c) in &order {
        check!(c.refused == (c.accepted.is_none() && c.refused), "connect", "connection {i}: {c:?}");
        if c.refused {
            check!(c.tried >= stop - EPS, "connect", "connection {i} was refused at {:.3}, before shutdown", c.tried);
            continue;
        }
        slots.sort_by(f64::total_cmp);
        let due = slots[0].max(c.tried);
        match c.accepted {
            Some(t) => {
                check!(t <= stop + EPS + errs, "accept", "connection {i} was accepted at {t:.3}, after shutdown at {stop:.3}");
                check!(t <= due + errs + EPS, "accept", "connection {i} waited from {:.3} to {t:.3} although a slot was free at {due:.3}", c.tried);
                let open = h.conns.values().filter(|d| d.accepted.is_some_and(|a| a <= t) && d.gone.is_none_or(|g| g > t)).count();
                check!(open <= max, "accept", "{open} connections open at {t:.3}, the limit is {max}");
                slots[0] = c.gone.unwrap_or(f64::MAX);
                if let (Some(g), cap) = (c.gone.or((served > t + s("cap_ms") + EPS).then_some(f64::MAX)), s("cap_ms")) {
                    check!(cap == 0.0 || g <= t + cap + EPS, "lifetime", "connection {i}, accepted at {t:.3}, was open until {g:.3}; the limit is {cap} s");
                }
            }
            None => check!(due + errs + EPS >= stop.min(served), "accept", "connection {i}, waiting since {:.3}, was never accepted although a slot was free at {due:.3}", c.tried),
        }
    }
    // ------------------------------------------------ requests
    let end = served.min(stop + graceful);
    let mut by_tag: BTreeMap<usize, Vec<&Attempt>> = BTreeMap::new();
    for a in &h.attempts {
        // without a content type of its own, by the id in its body
        let tag = a.tag.or_else(|| h.reqs.iter().position(|q| q.ctype.is_none() && q.body == a.body));
        let Some(tag) = tag else { violate("forward", format!("an upstream was sent something nobody asked for: {a:?}")) };
        by_tag.entry(tag).or_default().push(a);
    }
    let mut limited = vec![];
    let (mut got, mut unknown): (BTreeMap<&str, u64>, u64) = Default::default();
    for (i, q) in h.reqs.iter().enumerate() {
        let c = &h.conns[&q.conn];
        let tries = by_tag.get(&i).map(|v| &v[..]).unwrap_or(&[]);
        let (Some(acc), Some(sent_head)) = (c.accepted, q.head) else {
            check!(tries.is_empty(), "forward", "request {i} was forwarded before its head had come");
            // a head that never ends: closed in time
            if let (Some(acc), 11) = (c.accepted, q.kind) {
                let from = acc.max(q.prev);
                if c.left.is_none_or(|t| t > from + header + EPS) && end > from + header + EPS && q.prev == 0.0 {
                    check!(c.gone.is_some_and(|g| g <= from + header + EPS), "header-timeout", "a connection that sent half a head was kept from {from:.3} until {:?}; the limit is {header} s", c.gone);
                }
            }
            if q.resp.is_some() && q.kind != 11 {
                unknown += 1;
            }
            continue;
        };
        let t0 = sent_head.max(acc);
        let whole = q.sent.filter(|_| q.kind != 10).map(|t| t.max(acc));
        let probe = q.path == "/health" || q.path == "/ready";
        let what = format!("request {i} (kind {}, connection {}, head at {t0:.3}, whole at {whole:?})", q.kind, q.conn);
        check!(tries.len() <= 1, "forward", "{what} was forwarded {} times", tries.len());
        if q.kind == 12 {
            check!(tries.is_empty(), "forward", "{what}, not HTTP, was forwarded");
            continue;
        }
        let status = q.resp.as_ref().map(|r| r.status);
        if !probe {
            limited.push((t0, status.map(|s| s == 429 && tries.is_empty()), q.conn, i));
        }
        if let Some(a) = tries.first() {
            check!(!probe && whole.is_some_and(|w| w <= a.at + EPS), "forward", "{what} was forwarded at {:.3}", a.at);
            check!(a.method == q.method && a.body == q.body, "forward", "{what} was forwarded as {} with {} bytes, {} sent", a.method, a.body.len(), q.body.len());
            let ip = ip_of(c.ip).to_string();
            let xff = if q.xff.is_empty() { ip } else { format!("{}, {ip}", q.xff) };
            check!(a.xff == xff && a.hop == "1" && a.proto == "http", "forward", "{what} was forwarded for {:?} (hop {:?}, {:?}), expected {xff:?}", a.xff, a.hop, a.proto);
            let ct = q.ctype.clone().unwrap_or("application/json".into());
            check!(a.ctype == ct, "forward", "{what} was forwarded with content type {:?}, sent {ct:?}", a.ctype);
            check!(!matches!(q.kind, 3 | 7 | 8 | 9), "forward", "{what} was forwarded");
            let k = knew(h, a.at - EPS, a.at + 0.01);
            check!(k[a.up].0 && k[..a.up].iter().all(|x| x.1), "route", "{what} went to upstream {} at {:.3}; ready or not: {k:?}", a.up, a.at);
            check!(a.end <= a.at + request + EPS, "timeout", "{what} was kept waiting by upstream {} from {:.3} to {:.3}", a.up, a.at, a.end);
            if a.how == "none" && a.end < a.at + request.min(s("connect_ms")) - EPS {
                // given up early: the client or the server went away
                let why = c.left.is_some_and(|t| t <= a.end + EPS) || a.end >= end - EPS || s("cap_ms") > 0.0 && a.end >= acc + s("cap_ms") - EPS || a.end >= t0 + deadline - EPS || c.gone.is_some_and(|g| g <= a.end + EPS);
                check!(why, "timeout", "{what} was given up at {:.3}, {:.3} s after it was forwarded", a.end, a.end - a.at);
            }
        }
        let Some(r) = &q.resp else {
            unknown += 1;
            let Some((why, t)) = &q.lost else {
                // the client was still waiting at the end, or went away
                if c.left.is_none() && c.kind == 0 {
                    check!(h.served.unwrap().0 + 0.01 <= t0 + deadline + EPS, "silence", "{what} got no answer until the end");
                }
                continue;
            };
            let excused = *t >= end - EPS
                || s("cap_ms") > 0.0 && *t >= acc + s("cap_ms") - EPS
                || t0 >= stop - EPS
                || sent_head - q.prev.max(acc) >= header - EPS
                || q.kind == 10
                || s("usertimeout_ms") > 0.0 && c.kind != 0;
            check!(excused, "silence", "{what} got no answer: {why} at {t:.3}");
            continue;
        };
        // a slow reader sees it later
        let slow = if c.kind == 0 { 0.0 } else { 10.0 };
        check!(r.at <= t0 + deadline + EPS + slow, "deadline", "{what} was answered at {:.3}; the limit is {deadline} s", r.at);
        if q.path == "/health" {
            check!(r.status == 200, "probe", "{what} was answered {}", r.status);
            continue;
        }
        if q.path == "/ready" {
            if !r.complete {
                check!(r.end == 0.0 || r.end >= end - EPS || s("cap_ms") > 0.0 && r.end >= acc + s("cap_ms") - EPS || c.kind != 0, "probe", "{what} was answered in part");
                continue;
            }
            let k = knew(h, t0 - EPS, r.at + 0.01);
            let b: Value = serde_json::from_slice(&r.body).unwrap_or(Value::Null);
            let yes = b.get("ready").and_then(|v| v.as_bool());
            check!(r.status == 200 && yes == Some(true) || r.status == 503 && yes == Some(false), "probe", "{what} was answered {} {b}", r.status);
            check!(if r.status == 200 { k.iter().any(|x| x.0) } else { k.iter().all(|x| x.1) }, "probe", "{what} was answered {}; ready or not: {k:?}", r.status);
            continue;
        }
        let cut = |r: &Resp| r.end == 0.0 || r.end >= end - EPS || s("cap_ms") > 0.0 && r.end >= acc + s("cap_ms") - EPS || c.kind != 0 && s("usertimeout_ms") > 0.0 || c.left.is_some_and(|t| t <= r.end);
        if r.body.starts_with(b"UP") || tries.first().is_some_and(|a| a.how == "head" && a.end <= r.at && r.status == a.status && r.body.is_empty()) {
            let Some(a) = tries.first().filter(|a| a.how == "head") else { violate("answer", format!("{what} was answered with what no upstream said")) };
            *got.entry("forwarded").or_default() += 1;
            simrt::probe("forwarded");
            check!(r.status == a.status && r.ctype == a.sent_ctype, "answer", "{what} was answered {} {:?}, the upstream said {} {:?}", r.status, r.ctype, a.status, a.sent_ctype);
            check!(a.reply.starts_with(&r.body), "answer", "{what} was answered with other bytes than the upstream's");
            if r.complete {
                check!(a.full.is_some() && r.body == a.reply, "answer", "{what} was given {} of the upstream's {} bytes as the whole answer", r.body.len(), a.reply.len());
            } else if let Some(f) = a.full.filter(|f| *f < a.at + request - EPS) {
                check!(cut(r), "answer", "{what} was given only {} of {} bytes, the upstream had sent all at {f:.3}", r.body.len(), a.reply.len());
            } else if c.left.is_none() && c.kind == 0 && a.how == "head" {
                // it must not go on for ever either
                check!(end <= a.at + request + EPS + slow, "answer", "{what} is still waiting for the rest of an answer that began at {:.3}", r.at);
            }
            continue;
        }
        if !r.complete {
            unknown += 1;
            check!(cut(r) || r.end == 0.0, "answer", "{what} was given {} bytes of an answer", r.body.len());
            continue;
        }
        let Some((code, id)) = envelope(r) else { violate("envelope", format!("{what} was answered {} {:?} {}", r.status, r.ctype, String::from_utf8_lossy(&r.body))) };
        let (name, read) = match (r.status, code) {
            (503, -32000) => ("no_upstream_ready", true),
            (502, -32001) => ("upstream_unreachable", true),
            (504, -32002) => ("upstream_timeout", true),
            (413, -32003) => ("request_too_large", false),
            (508, -32004) => ("loop_detected", true),
            (408, -32005) => ("request_timeout", false),
            (429, -32006) => ("rate_limited", false),
            (400, -32007) => ("invalid_transaction", true),
            (400, -32600) => ("unreadable_body", false),
            x => violate("envelope", format!("{what} was answered {x:?}")),
        };
        simrt::probe(name);
        *got.entry(name).or_default() += 1;
        let want = if read { q.id.clone() } else { Value::Null };
        check!(id == want, "id", "{what} was answered {name} with id {id}, not {want}");
        let long = q.body.len() > sc.p("maxbody").max(1) as usize;
        let right = match name {
            "rate_limited" => tries.is_empty(),
            "request_too_large" => long && tries.is_empty(),
            "request_timeout" => r.at >= t0 + deadline - EPS,
            "loop_detected" => q.hop && tries.is_empty() && !long,
            "invalid_transaction" => q.kind == 3 && tries.is_empty() && !long,
            "no_upstream_ready" => {
                let w = whole.unwrap_or(f64::MAX);
                tries.is_empty() && !long && !q.hop && q.kind != 3 && knew(h, w - EPS, r.at + 0.01).iter().all(|x| x.1)
            }
            "upstream_unreachable" => tries.first().is_some_and(|a| matches!(a.how, "refused" | "broke") && r.at <= a.end + EPS + slow),
            "upstream_timeout" => tries.first().is_some_and(|a| a.how == "none" && a.end >= a.at + request.min(s("connect_ms")) - EPS && r.at <= a.end + EPS + slow),
            _ => q.kind == 10,
        };
        check!(right, "answer", "{what} was answered {name} at {:.3}; {} bytes, forwarded: {tries:?}", r.at, q.body.len());
    }
    // ------------------------------------------------ limits
    limited.sort_by(|a, b| a.0.total_cmp(&b.0));
    let net = |c: usize| net_of(ip_of(h.conns[&c].ip), sc.p("v4") as u32, sc.p("v6") as u32);
    let nets: BTreeSet<Vec<bool>> = h.conns.keys().map(|c| net(*c)).collect();
    let full = nets.len() > sc.p("entries").max(1) as usize;
    let least = |burst: f64, rate: f64, t: f64, me: usize, f: &dyn Fn(usize) -> bool| -> f64 {
        // what the bucket held at the very least, just before t
        let (mut tok, mut at) = (burst, 0.0f64);
        for (e, _, c, i) in &limited {
            if *i == me || !f(*c) || *e > t + EPS {
                continue;
            }
            tok = (tok + (e - at) * rate).min(burst) - 1.0;
            tok = tok.max(0.0);
            at = *e;
        }
        if t > at {
            tok = (tok + (t - at) * rate).min(burst);
        }
        tok - 2.0 * EPS * rate
    };
    let over = |burst: f64, rate: f64, f: &dyn Fn(usize) -> bool| -> Option<(f64, f64, usize)> {
        let yes: Vec<f64> = limited.iter().filter(|(_, no, c, _)| *no == Some(false) && f(*c)).map(|x| x.0).collect();
        for (a, t) in yes.iter().enumerate() {
            for (n, u) in yes[a..].iter().enumerate() {
                if (n + 1) as f64 > burst + rate * (u - t + 2.0 * EPS) + 0.01 {
                    return Some((*t, *u, n + 1));
                }
            }
        }
        None
    };
    let (ib, ir, gb, gr) = (sc.p("ipburst") as f64, sc.p("iprate").max(1) as f64, sc.p("gburst") as f64, sc.p("grate").max(1) as f64);
    if gb > 0.0 {
        let o = over(gb, gr, &|_| true);
        check!(o.is_none(), "limit", "{o:?}: more requests were let in than {gb} and {gr} per second");
    }
    if ib > 0.0 && !full {
        for k in &nets {
            let o = over(ib, ir, &|c| net(c) == *k);
            check!(o.is_none(), "limit", "{o:?}: more requests of one network were let in than {ib} and {ir} per second");
        }
    }
    for (t, no, c, i) in &limited {
        if *no == Some(true) {
            let mine = net(*c);
            let g = gb == 0.0 || least(gb, gr, *t, *i, &|_| true) >= 1.0;
            let p = ib == 0.0 || least(ib, ir, *t, *i, &|d| net(d) == mine) >= 1.0;
            check!(!(g && p), "limit", "request {i} was turned away at {t:.3} although there was room");
        }
    }
    // ------------------------------------------------ telemetry
    let count = |k: &str| h.counters.get(k).copied().unwrap_or(0);
    for (k, n) in &got {
        let c = if *k == "forwarded" { count("tn_worker_gateway_requests_total outcome=forwarded") } else { count(&format!("tn_worker_gateway_rejections_total reason={k}")) };
        check!(c >= *n && c <= n + unknown, "metrics", "{k} was counted {c} times, seen {n} times, unknown {unknown}");
    }
    let all: u64 = h.counters.iter().filter(|(k, _)| k.starts_with("tn_worker_gateway_rejections_total")).map(|x| *x.1).sum();
    check!(count("tn_worker_gateway_requests_total outcome=rejected") == all, "metrics", "rejections do not add up: {:?}", h.counters);
    if h.conns.values().all(|c| c.accepted.is_none() || c.gone.is_some()) {
        let g = h.gauges.get("tn_worker_gateway_inflight_requests ").copied().unwrap_or(0.0);
        check!(g == 0.0, "metrics", "{g} requests counted in flight, none is");
    }
    state(hash_str(&format!("{got:?} {} {:?}", h.conns.len(), h.know.iter().map(|k| k.len()).collect::<Vec<_>>())));
}
