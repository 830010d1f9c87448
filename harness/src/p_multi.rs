//! C38, and what an agent keeps: several agents of one runtime, one agent served several times.

use std::sync::Arc;
use std::time::Duration;

use haproxy_spoa::Agent;
use haproxy_spop::{Capability, Disconnect, Frame, HaproxyHello};
use tokio::sync::Semaphore;
use tokio::task::JoinHandle;

use crate::core::*;
use crate::gen;
use crate::mon::*;
use crate::p_agent::*;
use crate::session::*;
use crate::wire;


/// An agent, how it is served, and the peers it has.
struct Member {
    agent: Arc<Agent<Factory, Token>>,
    addr: std::net::SocketAddr,
    serves: Vec<JoinHandle<Result<(), String>>>,
    idle: Vec<Peer>,
    busy: Vec<(u64, Peer)>,
}

fn serve(agent: &Arc<Agent<Factory, Token>>) -> JoinHandle<Result<(), String>> {
    let a = agent.clone();
    tokio::spawn(async move { a.serve().await.map_err(|e| e.to_string()) })
}

fn gates(gates: Vec<Arc<Semaphore>>) -> Behave {
    Behave {
        call: Arc::new(move |_, _, m| match m.first().map(|m| m.name.as_str()) {
            Some(n) if n.starts_with("gate") => Act::Gate(gates[n[4..].parse::<usize>().unwrap()].clone(), echo(m)),
            _ => Act::Reply(echo(m)),
        }),
        ..Behave::default()
    }
}

async fn ask(p: &mut Peer, tok: u64) -> R {
    p.send(&Inp::notify(false, tok, 1, &[named("ok", tok)]).bytes()).await?;
    p.expect(&Out::Ack { sid: tok, fid: 1, actions: echo(&[named("ok", tok)]) }).await
}

pub fn several(c: &mut Case) -> R {
    let mut r = c.rng.fork();
    let key = r.next();
    let threads = *r.pick(&[0usize, 0, 1, 2, 4]);
    let stats = &mut c.stats;
    let res = live(threads, async {
        let n_agents = r.range(1, 3) as usize;
        let g = Cfg { caps: gen::CAPS.to_vec(), limit: Some(HOUR * 1000), state: 1, ..Cfg::default() };
        let doors: Vec<_> = (0..n_agents).map(|_| Arc::new(Semaphore::new(0))).collect();
        let log = Log::default();
        let rt = g.build(&log, gates(doors.clone()), &mut r);
        let mut all = vec![];
        for _ in 0..n_agents {
            let l = listener(false);
            let addr = l.local_addr().expect("vp-harness: addr");
            let agent = Arc::new(Agent::new(rt.clone(), l).map_err(|e| format!("the agent refused an ordinary listener: {e}"))?);
            let n = if n_agents == 1 { r.range(2, 4) } else { r.range(1, 3) };
            let serves = (0..n).map(|_| serve(&agent)).collect();
            all.push(Member { agent, addr, serves, idle: vec![], busy: vec![] });
        }
        let hello = engine_hello(&mut r).bytes();
        let agent_hello = Out::Hello(negotiate(&g, &hello_of()).unwrap());
        let mut tok = 0;
        let mut conns = 0u64;
        // a stop of one of the tasks that serve is no shutdown
        let mut stopped = 0;
        for round in 0..r.range(2, 3) {
            for (i, m) in all.iter_mut().enumerate() {
                if round > 0 && r.chance(25) {
                    let k = r.usize(m.serves.len());
                    m.serves[k].abort();
                    let _ = (&mut m.serves[k]).await;
                    m.serves[k] = serve(&m.agent);
                    stopped += 1;
                }
                for _ in 0..r.range(1, 5) {
                    let mut p = Peer::connect(m.addr).await?;
                    p.send(&hello).await?;
                    p.expect(&agent_hello).await?;
                    conns += 1;
                    tok += 1;
                    ask(&mut p, tok).await?;
                    if r.chance(30) {
                        let n = log.calls().len();
                        p.send(&Inp::notify(false, tok, 2, &[named(&format!("gate{i}"), tok)]).bytes()).await?;
                        until("a call", || log.calls().len() > n).await?;
                        m.busy.push((tok, p));
                    } else {
                        m.idle.push(p);
                    }
                }
            }
        }
        // every connection once
        a_while().await;
        if (log.made() as u64, log.dropped()) != (conns, 0) {
            return Err(format!("{conns} connections are open, {} services were made and {} released", log.made(), log.dropped()));
        }
        if let Some(e) = log.contract() {
            return Err(e);
        }
        // one after the other is shut down
        let mut order: Vec<usize> = (0..n_agents).collect();
        for i in (1..n_agents).rev() {
            order.swap(i, r.usize(i + 1));
        }
        let mut released = 0;
        for (at, &i) in order.iter().enumerate() {
            all[i].agent.shutdown().cancel();
            let idle = std::mem::take(&mut all[i].idle);
            released += idle.len() + all[i].busy.len();
            for mut p in idle {
                match p.frame().await? {
                    None => (),
                    Some(f) if goodbye(&f) => p.end().await?,
                    Some(f) => return Err(format!("after a shutdown an idle connection got {}", show(&f))),
                }
            }
            // the others go on
            for &j in &order[at + 1..] {
                let m = &mut all[j];
                if let Some(p) = m.idle.first_mut() {
                    tok += 1;
                    ask(p, tok).await.map_err(|e| format!("a connection of another agent of the same runtime: {e}"))?;
                }
                let mut p = Peer::connect(m.addr).await?;
                p.send(&hello).await?;
                p.expect(&agent_hello).await.map_err(|e| format!("a new connection to another agent of the same runtime: {e}"))?;
                m.idle.push(p);
                stats.count("connections to other agents after a shutdown", 1);
            }
            let busy = std::mem::take(&mut all[i].busy);
            if !busy.is_empty() {
                half_an_hour(threads).await;
                let done = all[i].serves.iter().filter(|s| s.is_finished()).count();
                if done > 0 {
                    return Err(format!("{done} of {} serving tasks returned with {} calls unfinished", all[i].serves.len(), busy.len()));
                }
                stats.count("agents with unfinished calls at the shutdown", 1);
                stats.max("tasks serving one agent", all[i].serves.len() as u64);
            }
            // all calls but one end, and then that one
            let n = busy.len();
            if n > 1 {
                let done = || log.count(|e| matches!(e, Ev::Done { .. }));
                let before = done();
                doors[i].add_permits(n - 1);
                until("calls end", || done() >= before + n - 1).await?;
                a_while().await;
                if all[i].serves.iter().any(|s| s.is_finished()) {
                    return Err("a serving task returned with a call unfinished".into());
                }
            }
            doors[i].add_permits(n.min(1));
            let serves = &mut all[i].serves;
            let done = serves.len() as u64;
            at_once(threads, "the end of serving after the last call", async {
                for (t, mut p) in busy {
                    p.expect(&Out::Ack { sid: t, fid: 2, actions: echo(&[named(&format!("gate{i}"), t)]) }).await?;
                    match p.frame().await? {
                        None => (),
                        Some(f) if goodbye(&f) => p.end().await?,
                        Some(f) => return Err(format!("after its ACK a connection got {}", show(&f))),
                    }
                }
                for s in serves.iter_mut() {
                    match eventually("serving ends", s).await? {
                        Ok(Ok(())) => (),
                        Ok(Err(e)) => return Err(format!("serving failed: {e}")),
                        Err(e) => return Err(format!("serving panicked: {e}")),
                    }
                }
                Ok(())
            })
            .await?;
            stats.count("serving tasks that returned", done);
            if log.dropped() < released {
                return Err(format!("the agent's serving tasks returned with {} of its services not released", released - log.dropped()));
            }
            // serving it again ends at once
            let mut s = serve(&all[i].agent);
            match eventually("serving an agent that was shut down", &mut s).await? {
                Ok(Ok(())) => (),
                x => return Err(format!("serving an agent that was shut down: {x:?}")),
            }
            stats.count("agents shut down", 1);
        }
        stats.count("connections served", conns);
        stats.count("serving tasks stopped and started again", stopped);
        if n_agents > 1 {
            stats.count("runtimes shared by agents", 1);
        }
        Ok(())
    });
    res?;
    c.nontrivial(key);
    Ok(())
}

pub fn c38(ctx: &mut Ctx) {
    ctx.rule = "case key: agents of one runtime (1 to 3), tasks that serve each (1 to 4), connections, unfinished calls and the order of the shutdowns, over TCP on 1 to 4 threads; non-trivial: every case, told apart by its seed".into();
    let n = ctx.n(60, 1500);
    ctx.cases("agents", n, several);
    ctx.require("connections served", 200);
    ctx.require("connections to other agents after a shutdown", 20);
    ctx.require("agents with unfinished calls at the shutdown", 20);
    ctx.require("serving tasks stopped and started again", 5);
}

/// An agent holds nothing of the connections it has had.
pub fn leak_agent(c: &mut Case) -> R {
    let mut r = c.rng.fork();
    let threads = c.idx as usize % 2;
    let (warm, more) = (300u64, 1000u64);
    let stats = &mut c.stats;
    live(threads, async {
        let g = Cfg { caps: vec![Capability::Fragmentation, Capability::Pipelining], ..Cfg::default() };
        // nothing of the monitors may grow
        let rt = crate::p_more::quiet_rt(Some(Duration::from_secs(20)), Default::default());
        let l = listener(false);
        let addr = l.local_addr().expect("vp-harness: addr");
        let agent = Agent::new(rt, l).map_err(|e| format!("the agent refused an ordinary listener: {e}"))?;
        let tok = agent.shutdown();
        let serve = tokio::spawn(async move { agent.serve().await.map_err(|e| e.to_string()) });
        let agent_hello = Out::Hello(negotiate(&g, &hello_of()).unwrap());
        let mut base = alloc::mark();
        for i in 0..warm + more {
            if i == warm {
                a_while().await;
                base = alloc::mark();
            }
            let mut p = Peer::connect(addr).await?;
            let hello = wire::wire(&Frame::HaproxyHello(HaproxyHello { engine_id: Some(format!("engine {i}")), ..hello_of() }));
            match r.below(8) {
                0 => drop(p),
                1 => p.reset(),
                2 => {
                    p.send(&hello[..10]).await?;
                    p.reset();
                }
                3 => {
                    p.send(&r.bytes(50)).await?;
                    drop(p);
                }
                k => {
                    p.send(&hello).await?;
                    p.expect(&agent_hello).await?;
                    if k > 4 {
                        p.send(&Inp::notify(true, 1, 1, &[named("ok", i)]).bytes()).await?;
                    }
                    if k == 6 {
                        p.send(&Inp::notify(false, 2, 1, &[named("fail", i)]).bytes()).await?;
                    }
                    if k == 7 {
                        p.send(&wire::wire(&Frame::HaproxyDisconnect(Disconnect { status_code: 0, message: "".into() }))).await?;
                        p.expect(&Out::Disc { status: vec![0], text: None }).await?;
                        p.end().await?;
                    }
                }
            }
        }
        let slack = 48 << 10;
        let e = until("memory", || base.live() <= slack).await;
        stats.max("connections of an agent: bytes more than before", base.live().max(0) as u64);
        stats.count("connections of an agent: rounds", more);
        if e.is_err() {
            return Err(format!("{} bytes more are held than before {more} more connections were handled, all of which have ended", base.live()));
        }
        tok.cancel();
        match eventually("serving ends", serve).await? {
            Ok(Ok(())) => Ok(()),
            x => Err(format!("serving ended with {x:?}")),
        }
    })
}
