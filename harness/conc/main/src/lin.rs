//! Every interleaving of a few threads' calls, each outcome compared with the outcomes of the sequential orders of
//! the same calls, executed on the same code.
use mc::Outcome;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// What the threads share, how an operation is applied to it, and what can be seen at the end.
pub trait World: Clone + Send + 'static {
    type Op: Clone + Send + std::fmt::Debug + 'static;
    /// what one call hands from step to step when it is not atomic
    type Local: Default + Send;
    /// how many atomic steps the call consists of
    fn steps(op: &Self::Op) -> usize;
    /// the call
    fn call(&self, op: &Self::Op) -> String;
    /// one of its steps; the last one gives the result
    fn step(&self, op: &Self::Op, k: usize, l: &mut Self::Local) -> Option<String>;
    fn last(&self) -> String;
}

pub struct Bounds {
    pub preemptions: u32,
    pub executions: u64,
    pub steps: usize,
    /// also at the points of the runtime crate
    pub detail: bool,
    /// the calls make no promise about their outcome when they overlap; they must only come to an end
    pub weak: bool,
}

type Results = Vec<Vec<String>>;
/// when each call began and ended
type Times = Vec<Vec<(usize, usize)>>;

pub fn orders(counts: &[usize]) -> Vec<Vec<u8>> {
    fn go(left: &mut Vec<usize>, at: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left.iter().all(|c| *c == 0) {
            out.push(at.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                at.push(i as u8);
                go(left, at, out);
                at.pop();
                left[i] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut counts.to_vec(), &mut vec![], &mut out);
    out
}

fn fresh<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> Result<R, String> {
    std::thread::spawn(move || mc::guard(f)).join().map_err(mc::panic_text)?
}

/// The positions of the first and last step of every call.
fn spans<W: World>(threads: &[Vec<W::Op>], order: &[u8]) -> Vec<Vec<(usize, usize)>> {
    let mut s: Vec<Vec<(usize, usize)>> = threads.iter().map(|t| t.iter().map(|_| (usize::MAX, 0)).collect()).collect();
    let mut at: Vec<(usize, usize)> = vec![(0, 0); threads.len()];
    for (pos, t) in order.iter().enumerate() {
        let t = *t as usize;
        let (call, step) = at[t];
        if step == 0 {
            s[t][call].0 = pos;
        }
        s[t][call].1 = pos;
        at[t] = if step + 1 == W::steps(&threads[t][call]) { (call + 1, 0) } else { (call, step + 1) };
    }
    s
}

fn sequential<W: World>(setup: &(dyn Fn() -> W + Sync), threads: &[Vec<W::Op>], order: &[u8]) -> (Results, String) {
    let w = setup();
    let mut res: Results = threads.iter().map(|_| vec![]).collect();
    let mut at: Vec<(usize, usize, W::Local)> = threads.iter().map(|_| (0, 0, W::Local::default())).collect();
    for t in order {
        let t = *t as usize;
        let (call, step, local) = &mut at[t];
        let op = &threads[t][*call];
        let n = W::steps(op);
        if n == 1 {
            res[t].push(w.call(op));
            *call += 1;
            continue;
        }
        let r = w.step(op, *step, local);
        *step += 1;
        if *step == n {
            res[t].push(r.unwrap_or_default());
            *call += 1;
            *step = 0;
            *local = W::Local::default();
        }
    }
    let l = w.last();
    (res, l)
}

pub fn show<O: std::fmt::Debug>(threads: &[Vec<O>]) -> String {
    threads.iter().enumerate().map(|(i, t)| format!("T{i}:{t:?}")).collect::<Vec<_>>().join(" ")
}

/// All interleavings of one scenario.
pub fn scenario<W: World>(
    out: &mut Outcome,
    name: &str,
    setup: Arc<dyn Fn() -> W + Send + Sync>,
    threads: &[Vec<W::Op>],
    b: &Bounds,
) where
    W::Op: Sync,
{
    let counts: Vec<usize> = threads.iter().map(|t| t.iter().map(W::steps).sum()).collect();
    let mut allowed: HashMap<(Results, String), Vec<Vec<Vec<(usize, usize)>>>> = HashMap::new();
    for o in orders(&counts) {
        let (s, t, oo) = (setup.clone(), threads.to_vec(), o.clone());
        match fresh(move || sequential(&*s, &t, &oo)) {
            Ok(r) => allowed.entry(r).or_default().push(spans::<W>(threads, &o)),
            Err(e) => {
                out.fail(format!("sequential: {}", mc::first_line(&e)), format!("{name}: {} in the order {o:?}: {e}", show(threads)));
                return;
            }
        }
        out.count("sequential orders", 1);
    }
    out.count("scenarios", 1);
    out.count("different sequential outcomes", allowed.len() as u64);
    let mut bad: Option<(String, String)> = None;
    let mut reached = std::collections::HashSet::new();
    let (n, whole) = sched::explore(b.preemptions, b.executions, |plan| {
        let s = setup.clone();
        let w = match fresh(move || s()) {
            Ok(w) => w,
            Err(e) => {
                bad = Some((format!("set-up: {}", mc::first_line(&e)), e));
                return None;
            }
        };
        let got: Arc<Mutex<(Results, Times)>> = Arc::new(Mutex::new((vec![vec![]; threads.len()], vec![vec![]; threads.len()])));
        let bodies: Vec<Box<dyn FnOnce() + Send>> = threads
            .iter()
            .enumerate()
            .map(|(i, ops)| {
                let (w, ops, got) = (w.clone(), ops.clone(), got.clone());
                Box::new(move || {
                    for op in &ops {
                        sched::begin();
                        let r = mc::guard(|| w.call(op)).unwrap_or_else(|e| format!("PANIC {e}"));
                        let t = sched::ended();
                        let mut g = got.lock().unwrap();
                        g.0[i].push(r);
                        g.1[i].push(t);
                    }
                    drop(w);
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let run = sched::execute(bodies, plan, b.steps, b.detail);
        out.count("schedules", 1);
        out.count("schedule points", run.steps as u64);
        let (res, times) = got.lock().unwrap().clone();
        let how = || format!("{name}: {} under the schedule {:?} (choices {:?}): results so far {res:?}", show(threads), &run.switches[..run.switches.len().min(200)], run.trace.iter().map(|c| c.chosen).take(400).collect::<Vec<_>>());
        match run.end {
            sched::End::Finished => (),
            sched::End::Deadlock => {
                bad = Some(("deadlock".into(), format!("{}: deadlock", how())));
                std::mem::forget(w);
                return None;
            }
            sched::End::TooLong => {
                bad = Some(("never ends".into(), format!("{}: no end after {} steps", how(), b.steps)));
                std::mem::forget(w);
                return None;
            }
        }
        if let Some(p) = res.iter().flatten().find(|r| r.starts_with("PANIC")) {
            bad = Some((format!("panic: {}", mc::first_line(p)), format!("{}: {p}", how())));
            return None;
        }
        let last = match fresh(move || w.last()) {
            Ok(l) => l,
            Err(e) => {
                bad = Some((format!("unusable afterwards: {}", mc::first_line(&e)), format!("{}: {e}", how())));
                return None;
            }
        };
        let key = (res.clone(), last.clone());
        let ok = b.weak || match allowed.get(&key) {
            None => false,
            Some(orders) => orders.iter().any(|sp| {
                // a call that ended before another one began comes first
                times.iter().enumerate().all(|(i, ts)| {
                    ts.iter().enumerate().all(|(a, ta)| {
                        times.iter().enumerate().all(|(j, us)| i == j || us.iter().enumerate().all(|(c, uc)| ta.1 >= uc.0 || sp[i][a].1 < sp[j][c].0))
                    })
                })
            }),
        };
        if !ok {
            let seq = allowed.keys().map(|(r, l)| format!("{r:?} then {l}")).collect::<Vec<_>>().join("\n    or ");
            let why = if allowed.contains_key(&key) { "in no sequential order that respects which call ended before another began" } else { "in no sequential order" };
            bad = Some(("not a sequential outcome".into(), format!("{}\n    ended with {last}\n    which happens {why}; the sequential outcomes are\n    {seq}", how())));
            return None;
        }
        reached.insert(mc::hash(&key));
        Some(run)
    });
    if std::env::var("CONC_TIMES").is_ok() {
        eprintln!("{:>8} schedules {name}: {}", n, show(threads));
    }
    out.sample(|| format!("{name}: {}: {} schedules, {} sequential outcomes, {} reached", show(threads), n, allowed.len(), reached.len()));
    out.see(&(name, show(threads)));
    out.count("outcomes reached", reached.len() as u64);
    if !whole {
        out.count("scenarios cut off", 1);
    }
    if let Some((k, d)) = bad {
        let kinds = threads.iter().map(|t| t.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(" | ");
        out.fail(format!("{name}: {kinds}: {k}"), d);
    }
}
