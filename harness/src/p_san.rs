//! C31: the workloads the sanitizers watch, and the reading of their verdicts.
//!
//! The same binary built with ThreadSanitizer (standard library included) and AddressSanitizer, and
//! interpreted by Miri, runs `c31`. What the monitors think of the behaviour is not judged here.

use std::collections::BTreeMap;
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

use haproxy_spoa::Connection;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::sync::Semaphore;
use tokio::time::{sleep, timeout};
use tokio_util::sync::CancellationToken;

use crate::core::*;
use crate::mon::*;
use crate::session::*;
use crate::{gen, p_agent, p_codec, p_conn, p_more, p_multi, p_reasm, p_wait, wire};

pub fn c31(ctx: &mut Ctx, tool: &str) {
    ctx.deaf = true;
    // cases per group: (a compiled sanitizer, the interpreter)
    let miri = tool == "miri";
    let deep = if ctx.thorough { 20 } else { 1 };
    let n = |a: u64, b: u64| if miri { b * if deep > 1 { 10 } else { 1 } } else { a * deep };
    ctx.cases("hostile frames", n(4000, 150), |c| {
        let p = p_codec::hostile(&mut c.rng);
        if miri && p.len() > 2000 {
            return Ok(());
        }
        let v = p_codec::via(&mut c.rng);
        p_codec::total(c, wire::framed(&p), p.len(), 16384, v)
    });
    ctx.cases("damaged frames", n(4000, 150), |c| {
        let p = p_codec::hostile(&mut c.rng);
        if miri && p.len() > 2000 {
            return Ok(());
        }
        p_codec::judge(c, &p)
    });
    ctx.cases("frames written and read", n(1500, 64), |c| {
        let f = if miri { p_codec::small_frame(&mut c.rng) } else { gen::frame(&mut c.rng) };
        p_codec::roundtrip(c, vec![f])
    });
    ctx.cases("header blocks", n(500, 40), |c| {
        let (b, list) = p_codec::header_block(&mut c.rng);
        if miri && b.len() > 3000 {
            return Ok(());
        }
        let k = c.rng.usize(b.len() + 1);
        let _ = haproxy_spoa::req::hdrs_bin(&b[..k]);
        p_codec::check_headers(c, &b, &list)
    });
    ctx.cases("reassembly histories", n(100, 16), |c| {
        let ks = p_reasm::keys(&mut c.rng);
        let steps = if miri { 10 } else { 60 };
        let re = if c.idx % 2 == 0 {
            p_reasm::Re::Raw(Default::default())
        } else {
            p_reasm::Re::Notify(Default::default())
        };
        p_reasm::sequential(c, ks, steps, re)
    });
    ctx.cases("dispatch histories", n(200, 24), p_reasm::dispatch_history);
    ctx.cases("wake-ups", n(200, 24), p_reasm::wake_case);
    ctx.cases("acknowledgements", n(500, 40), p_reasm::acker_case);
    ctx.cases("connections side by side", n(100, 8), p_agent::shared);
    ctx.cases("one connection shut down", n(100, 16), p_agent::shutdown_one);
    ctx.cases("frames for reassemblers", n(300, 24), p_more::handler_case);
    ctx.cases("dispatch without a processor", n(200, 16), p_more::orphan);
    ctx.cases("errors", n(2000, 60), p_more::error_case);
    ctx.cases("disconnects", n(300, 14), p_more::disconnect_case);
    ctx.cases("failures with a status", n(300, 14), p_conn::status_failure);
    ctx.cases("codec histories", n(60, 7), p_more::duplex);
    ctx.cases("ends of connections", n(200, 7), p_wait::endings);
    ctx.cases("codecs under a log", n(400, 14), p_more::log_codec);
    if miri {
        return;
    }
    ctx.cases("sessions under a log", n(40, 0), p_more::log_session);
    ctx.cases("waiting consumers", n(100, 0), p_wait::consumers);
    ctx.cases("waiting frames", n(100, 0), p_wait::waiting_frames);
    ctx.cases("agents of one runtime", n(10, 0), p_multi::several);
    ctx.cases("codecs in threads", n(30, 0), codec_threads);
    ctx.cases("reassembly in threads", n(120, 0), |c| {
        let t = 2 + c.rng.usize(7);
        let (k, p) = (1 + c.rng.usize(4), *c.rng.pick(&[10, 25, 50]));
        p_reasm::concurrent(c, t, 20, 4, k, p)
    });
    ctx.cases("dispatch in threads", n(80, 0), p_reasm::dispatch_threads);
    ctx.cases("dispatch races", n(80, 0), p_reasm::dispatch_race);
    ctx.cases("wake-ups in threads", n(20, 0), p_reasm::wake_threads);
    ctx.cases("acknowledgements in threads", n(60, 0), p_reasm::acker_threads);
    ctx.cases("sessions in threads", n(40, 0), session_threads);
    ctx.cases("agent with troubled neighbours", n(10, 0), p_agent::tcp_neighbours);
    ctx.cases("agent with vanishing peers", n(6, 0), |c| p_agent::vanishing(c, 40));
    ctx.cases("agent shut down", n(16, 0), p_agent::shutdown_agent);
}

/// The codec in several threads at a time.
fn codec_threads(c: &mut Case) -> R {
    let k = 2 + c.rng.usize(5);
    let bar = Arc::new(Barrier::new(k));
    let threads: Vec<_> = (0..k)
        .map(|_| {
            let (mut r, bar) = (c.rng.fork(), bar.clone());
            std::thread::spawn(move || {
                let mut stats = Stats::default();
                bar.wait();
                for i in 0..60 {
                    let mut c = Case { rng: r.fork(), idx: i, stats: &mut stats, thorough: false, verbose: false };
                    let p = p_codec::hostile(&mut c.rng);
                    let _ = p_codec::judge(&mut c, &p);
                    let f = gen::frame(&mut c.rng);
                    let _ = p_codec::roundtrip(&mut c, vec![f]);
                    let (b, list) = p_codec::header_block(&mut c.rng);
                    let _ = p_codec::check_headers(&mut c, &b, &list);
                }
            })
        })
        .collect();
    for t in threads {
        let _ = t.join();
    }
    c.count("frames handled by codecs in threads", 60 * k as u64);
    Ok(())
}

/// Sessions of one runtime on several worker threads, some of them stopped in different ways.
fn session_threads(c: &mut Case) -> R {
    let mut r = c.rng.fork();
    let threads = 2 + r.usize(5);
    let stats = &mut c.stats;
    let _ = p_agent::live(threads, async {
        let g = Cfg { caps: gen::CAPS.to_vec(), limit: Some(Duration::from_secs(3600)), state: 1, ..Cfg::default() };
        let log = Log::default();
        let rt = g.build(&log, p_agent::by_name(Arc::new(Semaphore::new(0))), &mut r);
        let mut tasks = vec![];
        let mut reads = vec![];
        for i in 0..r.range(4, 24) {
            let (inputs, out) = p_agent::tcp_good(&mut r, i + 1);
            let size = *r.pick(&[16usize, 64, 1024, 65536]);
            let (ours, theirs) = tokio::io::duplex(size);
            let tok = CancellationToken::new();
            let (rt, t2) = (rt.clone(), tok.clone());
            let serve = tokio::spawn(async move { Connection::new(rt, theirs, t2).serve().await.is_ok() });
            let bytes: Vec<u8> = inputs.iter().flat_map(|i| i.bytes()).collect();
            let fate = r.below(8);
            let cut = r.usize(bytes.len());
            let nap = Duration::from_micros(r.below(3000));
            let want = out.len();
            reads.push(tokio::spawn(async move {
                let (mut rd, mut wr) = tokio::io::split(ours);
                let writer = tokio::spawn(async move {
                    let all = if fate == 0 { &bytes[..cut] } else { &bytes[..] };
                    let _ = wr.write_all(all).await;
                    if fate == 1 {
                        tok.cancel();
                    }
                    if fate == 2 {
                        sleep(nap).await;
                        tok.cancel();
                    }
                    if fate == 0 {
                        let _ = wr.shutdown().await;
                    }
                    wr
                });
                let mut got = vec![];
                let mut n = 0;
                let mut b = [0u8; 2048];
                while n < want {
                    match timeout(Duration::from_secs(10), rd.read(&mut b)).await {
                        Ok(Ok(k)) if k > 0 => got.extend_from_slice(&b[..k]),
                        _ => break,
                    }
                    n = wire::split(&got).0.len();
                }
                let _ = writer.await;
                n
            }));
            if fate == 3 {
                sleep(nap).await;
                serve.abort();
            }
            tasks.push(serve);
        }
        let mut frames = 0;
        for t in reads {
            frames += t.await.unwrap_or(0);
        }
        for t in tasks {
            let _ = timeout(Duration::from_secs(10), t).await;
        }
        stats.count("frames answered to sessions in threads", frames as u64);
        Ok(())
    });
    Ok(())
}

// ---------------------------------------------------------------- supervision

pub fn counters(ctx: &Ctx) -> String {
    let mut s = String::new();
    for (k, v) in ctx.stats.groups.iter().chain(&ctx.stats.counters) {
        s.push_str(&format!("count {v} {k}\n"));
    }
    s.push_str("done\n");
    s
}

/// The interpreter is slow: its cases are dealt to this many processes.
const PARTS: usize = 7;

struct Tool {
    name: &'static str,
    part: usize,
    cmd: Command,
    /// What begins a report.
    marks: &'static [&'static str],
    cap: Duration,
}

/// Runs the tools and reads what they report.
pub fn supervise(verif: &str, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let h = format!("{verif}/harness");
    let dir = std::env::temp_dir().join(format!("vp31-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let cap = Duration::from_secs(if thorough { 5400 } else { 240 });
    let mut tools = vec![];
    for name in ["tsan", "asan"] {
        let mut cmd = Command::new(format!("{h}/target/{name}/x86_64-unknown-linux-gnu/debug/vp"));
        cmd.args(["C31", "--worker", "--san", name]);
        cmd.env("TSAN_OPTIONS", format!("exitcode=66 halt_on_error=0 second_deadlock_stack=1 suppressions={h}/tsan.supp"));
        cmd.env("ASAN_OPTIONS", "exitcode=67:detect_leaks=0:allocator_may_return_null=1");
        let marks: &[&str] = if name == "tsan" { &["WARNING: ThreadSanitizer"] } else { &["ERROR: AddressSanitizer"] };
        tools.push(Tool { name, part: 0, cmd, marks, cap });
    }
    for part in 0..PARTS {
        let mut cmd = Command::new("cargo");
        cmd.current_dir(&h);
        cmd.args(["+nightly", "miri", "run", "--offline", "-q", "--target-dir", "target/miri", "--", "C31", "--worker", "--san"]);
        cmd.arg(format!("miri:{part}/{PARTS}"));
        cmd.env("MIRI_SYSROOT", format!("{h}/target/miri-sysroot"));
        cmd.env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance");
        cmd.env_remove("RUSTUP_TOOLCHAIN");
        tools.push(Tool { name: "miri", part, cmd, marks: &["error: Undefined Behavior"], cap: cap * 2 });
    }

    let mut handles = vec![];
    for mut t in tools {
        let (o, e) = (dir.join(format!("{}-{}.out", t.name, t.part)), dir.join(format!("{}-{}.err", t.name, t.part)));
        t.cmd.stdout(Stdio::from(std::fs::File::create(&o).expect("out")));
        t.cmd.stderr(Stdio::from(std::fs::File::create(&e).expect("err")));
        t.cmd.stdin(Stdio::null());
        t.cmd.env("VP_VERIF", &dir).env("VERIF_SEED", seed.to_string()).env("VERIF_TIER", if thorough { "thorough" } else { "quick" });
        handles.push(std::thread::spawn(move || {
            let t0 = Instant::now();
            let mut late = false;
            let status = match t.cmd.spawn() {
                Err(e) => format!("did not start: {e}"),
                Ok(mut child) => loop {
                    match child.try_wait() {
                        Ok(Some(s)) => break format!("{s}"),
                        Ok(None) if t0.elapsed() > t.cap => {
                            late = true;
                            let _ = child.kill();
                            let _ = child.wait();
                            break "stopped".into();
                        }
                        _ => std::thread::sleep(Duration::from_millis(100)),
                    }
                },
            };
            let read = |p: &std::path::Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).to_string();
            (t.name, t.marks, status, late, read(&o), read(&e), t0.elapsed())
        }));
    }
    let mut bad = vec![];
    let mut lost = vec![];
    let mut observed: BTreeMap<String, u64> = BTreeMap::new();
    let (mut evaluations, mut groups) = (0u64, 0u64);
    let mut samples = vec![];
    for t in handles {
        let Ok((name, marks, status, late, out, err, took)) = t.join() else {
            lost.push("a tool".to_string());
            continue;
        };
        let at = marks.iter().filter_map(|m| err.find(m)).min();
        let done = out.lines().any(|l| l == "done");
        for l in out.lines() {
            if let Some((n, k)) = l.strip_prefix("count ").and_then(|l| l.split_once(' ')) {
                *observed.entry(format!("{name}: {k}")).or_insert(0) += n.parse::<u64>().unwrap_or(0);
            }
            if let Some(n) = l.strip_prefix("evaluations ") {
                evaluations += n.parse::<u64>().unwrap_or(0);
            }
            if let Some(n) = l.strip_prefix("groups ") {
                groups += n.parse::<u64>().unwrap_or(0);
            }
        }
        samples.push(format!("{name}: {status}, {:.1} s, workload {}", took.as_secs_f64(), if done { "finished" } else { "not finished" }));
        if let Some(at) = at {
            let path = write_replay(verif, "C31", name, 0, seed, thorough, &clip(&err[at..], 20_000));
            eprintln!("{}", clip(&err[at..], 3000));
            bad.push(path);
        } else if status.contains("signal: 11") || status.contains("signal: 7") || status.contains("signal: 4") {
            let path = write_replay(verif, "C31", name, 0, seed, thorough, &format!("the process died: {status}\n{}", clip(&err, 20_000)));
            eprintln!("{name}: the process died: {status}");
            bad.push(path);
        } else if late {
            // a behaviour that makes it slow is for other checks
            eprintln!("{name}: stopped after {:.0} s, no report until then", took.as_secs_f64());
            if observed.is_empty() && evaluations == 0 && err.contains("error") {
                lost.push(name.into());
            }
        } else if !done {
            eprintln!("{name}: {status}\n{}", clip(&err, 3000));
            lost.push(name.into());
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let mut ctx = Ctx::new("C31", seed, thorough, verif);
    ctx.start = t0;
    ctx.rule = "a case is one workload episode run under ThreadSanitizer (instrumented standard library), AddressSanitizer or Miri; non-trivial: episodes that ran to their end under a tool, counted per tool and group".into();
    ctx.stats.evaluations = evaluations;
    for i in 0..groups {
        ctx.stats.distinct.insert(i);
    }
    ctx.stats.counters = observed;
    ctx.stats.samples = samples;
    ctx.assumptions = vec!["ThreadSanitizer reports only races of executions that happened; reports within tokio's I/O driver, whose synchronisation through epoll it does not see, are suppressed".into()];
    for b in &bad {
        ctx.violations.push(Violation { group: "sanitizer".into(), idx: 0, detail: b.clone() });
    }
    write_evidence(&ctx);
    for b in &bad {
        println!("VIOLATION property=C31 replay={b}");
    }
    if !bad.is_empty() {
        return 1;
    }
    if !lost.is_empty() {
        eprintln!("no answer from: {}", lost.join(", "));
        return 2;
    }
    println!("C31: held in {evaluations} episodes, {:.1} s", t0.elapsed().as_secs_f64());
    0
}
