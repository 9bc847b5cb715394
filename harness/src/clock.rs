use crate::util::*;
use ethereum_consensus::clock::*;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio_stream::Stream;

struct T(Arc<Mutex<u128>>);
impl TimeProvider for T {
    fn get_current_time(&self) -> u128 {
        *self.0.lock().unwrap()
    }
}
fn clock(p: &Value, now: u128) -> (Clock<T>, Arc<Mutex<u128>>) {
    let t = Arc::new(Mutex::new(now));
    (Clock::new(u(&p["g"]), u(&p["sps"]), u(&p["spe"]), T(t.clone())), t)
}
fn s(x: impl ToString) -> Value {
    Value::from(x.to_string())
}
pub fn exec(op: &str, a: &Value) -> Value {
    let p = &a["p"];
    match op {
        "clock.read" => {
            let now = big(&a["now"]);
            let (c, _) = clock(p, now);
            json!({"slot": opt(c.current_slot()), "epoch": opt(c.current_epoch()), "before": c.before_genesis(),
                   "next": s(c.duration_until_next_slot().as_nanos()), "at": opt(c.slot_at_time(now))})
        }
        "clock.slot" => {
            let slot = u(&a["slot"]);
            let (c, _) = clock(p, big(&a["now"]));
            let ts = c.timestamp_at_slot(slot);
            json!({"ts": s(ts), "epoch": s(c.epoch_for(slot)), "until": s(c.duration_until_slot(slot).as_nanos()),
                   "back": opt(convert_timestamp_to_slot(ts, u(&p["g"]), u(&p["sps"])))})
        }
        "clock.far" => {
            let slot = u(&a["slot"]);
            let (c, _) = clock(p, 0);
            let ts = c.timestamp_at_slot(slot);
            json!({"ts": s(ts), "epoch": s(c.epoch_for(slot)), "back": opt(convert_timestamp_to_slot(ts, u(&p["g"]), u(&p["sps"]))),
                   "free": s(convert_slot_to_timestamp(slot, u(&p["sps"]) as u128 * 1_000_000_000, u(&p["g"]) as u128 * 1_000_000_000))})
        }
        "clock.seconds" => json!({"slot": opt(convert_timestamp_to_slot(u(&a["t"]), u(&p["g"]), u(&p["sps"])))}),
        "clock.nanos" => json!({"slot": opt(convert_timestamp_nanos_to_slot(big(&a["now"]), u(&p["g"]) as u128 * 1_000_000_000, u(&p["sps"]) as u128 * 1_000_000_000))}),
        // against the system's own time, read just before and just after
        "clock.wall" => {
            let read = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos();
            let c = from_system_time(u(&p["g"]), u(&p["sps"]), u(&p["spe"]));
            let t0 = read();
            let at = ((t0 / 1_000_000_000) as i64 + a["off"].as_i64().unwrap()) as u64;
            let (until, nanos, since, slot) = (duration_until(at), get_current_unix_time_in_nanos(), duration_since_unix_epoch(), c.current_slot());
            json!({"t0": s(t0), "t1": s(read()), "at": s(at), "until": s(until.as_nanos()), "nanos": s(nanos), "since": s(since.as_nanos()), "slot": opt(slot)})
        }
        "clock.stream" => {
            let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
            rt.block_on(async {
                let mut st = None;
                let mut wall = None;
                let mut out = vec![];
                for e in a["h"].as_array().unwrap() {
                    match e["k"].as_str().unwrap() {
                        "create" => {
                            let (c, t) = clock(p, big(&e["now"]));
                            st = Some(Box::pin(c.into_stream()));
                            wall = Some(t);
                            out.push(json!({"k": "create", "now": e["now"]}));
                        }
                        "advance" => {
                            *wall.as_ref().unwrap().lock().unwrap() += u(&e["w"]) as u128 * 1_000_000_000;
                            tokio::time::advance(Duration::from_secs(u(&e["t"]))).await;
                            out.push(e.clone());
                        }
                        "poll" => {
                            let s = st.as_mut().unwrap();
                            let y = std::future::poll_fn(|cx| std::task::Poll::Ready(s.as_mut().poll_next(cx))).await;
                            let y = match y {
                                std::task::Poll::Pending => "pending".to_string(),
                                std::task::Poll::Ready(None) => "none".to_string(),
                                std::task::Poll::Ready(Some(x)) => x.to_string(),
                            };
                            out.push(json!({"k": "poll", "y": y}));
                        }
                        k => panic!("harness: stream event {k}"),
                    }
                }
                json!({"p": p, "h": out})
            })
        }
        _ => panic!("harness: unknown op {op}"),
    }
}
pub fn gen(g: &mut G, n: usize) -> Vec<(String, Value)> {
    let mut o = vec![];
    let ns = 1_000_000_000u128;
    for _ in 0..n {
        let sps = *g.pick(&[1u64, 2, 5, 6, 12, 13, 60, 3600]);
        let sps = if g.chance(1, 4) { g.range(1, 100_000) } else { sps };
        let genesis = match g.below(5) {
            0 => 0,
            1 => g.below(100),
            2 => 1606824023,
            3 => g.below(4_000_000_000),
            _ => g.below(18_000_000_000),
        };
        let spe = *g.pick(&[1u64, 2, 8, 32, 31, 1000]);
        let p = json!({"g": genesis.to_string(), "sps": sps.to_string(), "spe": spe.to_string()});
        let max_slot = 400_000_000u64 / sps;
        let slot = if g.chance(1, 3) { g.below(5) } else { g.below(max_slot + 1) };
        let start = genesis as u128 * ns + slot as u128 * sps as u128 * ns;
        let d = match g.below(6) {
            0 => 0,
            1 => 1,
            2 => -1,
            3 => g.below(sps * 1_000_000_000) as i128,
            4 => -(g.below(sps * 2_000_000_000) as i128),
            _ => g.below(2_000_000_000) as i128,
        };
        let now = (start as i128 + d).max(0) as u128;
        let now = if g.chance(1, 20) { g.below(genesis + 1) as u128 * ns } else { now };
        if g.chance(1, 20) {
            o.push(("clock.wall".into(), json!({"p": p, "off": g.below(2000) as i64 - 1000})));
        }
        match g.below(6) {
            5 => {
                let top = (u64::MAX - genesis) / sps;
                let s2 = match g.below(4) {
                    0 => top - g.below(3),
                    1 => g.below(top),
                    _ => g.below(top) >> g.below(63),
                };
                o.push(("clock.far".into(), json!({"p": p, "slot": s2.to_string()})))
            }
            0 | 1 => o.push(("clock.read".into(), json!({"p": p, "now": now.to_string()}))),
            2 => {
                let s2 = if g.chance(1, 2) { slot + g.below(3) } else { g.below(max_slot + 1) };
                o.push(("clock.slot".into(), json!({"p": p, "now": now.to_string(), "slot": s2.to_string()})))
            }
            3 => {
                let t = if g.chance(1, 4) { (genesis + slot).saturating_sub(g.below(3)) } else { (now / ns) as u64 };
                // seconds precision is exact over all of u64
                let t = if g.chance(1, 10) { u64::MAX - g.below(5) } else { t };
                o.push(("clock.seconds".into(), json!({"p": p, "t": t.to_string()})))
            }
            _ => {
                let now = if g.chance(1, 5) { now * g.range(1, 1_000_000) as u128 } else { now };
                o.push(("clock.nanos".into(), json!({"p": p, "now": now.to_string()})))
            }
        }
    }
    o
}
