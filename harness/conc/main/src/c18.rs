//! C18: read-log-update.
use mc::*;
use std::cell::{Cell, RefCell};
use std::sync::{Arc, Mutex};
use stm::rlu::{BusyBreaker, RLUObject, RLUStrategy, RLUVar, Read, TransactionError, Write, RLU};

/// What a section does. Guards are held at once only where it says so; the numbers are variables.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Act {
    Get(u8),
    Set(u8),
    /// read one and write the other with both held; which is opened first, which is closed first
    ReadWrite(u8, u8, bool, bool),
    /// write both with both held; is the first one closed first?
    WriteBoth(u8, u8, bool),
    ReadBoth(u8, u8),
    /// a section of its own in the middle of this one, while this one holds a guard (of what kind?)
    Inner(u8, u8, bool),
    /// through a copy of the variable and of the controller
    SetCopy(u8),
}
use Act::*;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum End {
    Fine,
    /// an error the first time
    Once,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum How {
    Abort,
    Retry,
    Breaker,
}

type Res = Result<(), TransactionError>;
fn no() -> Res {
    Err(TransactionError::Failed)
}

struct One {
    rlu: RLU<u64>,
    v: Vec<RLUVar<u64>>,
    m: RefCell<Vec<u64>>,
    next: Cell<u64>,
    bad: RefCell<Option<String>>,
}
impl One {
    fn fresh(&self) -> u64 {
        self.next.set(self.next.get() + 1);
        self.next.get()
    }
    fn saw(&self, what: &str, v: u8, got: u64) {
        let want = self.m.borrow()[v as usize];
        if got != want && self.bad.borrow().is_none() {
            *self.bad.borrow_mut() = Some(format!("{what} of variable {v} gives {got} instead of {want}"));
        }
    }
    fn act(&self, ctx: &Arc<stm::rlu::RluContext<u64>>, a: Act) -> Res {
        let var = |i: u8| &self.v[i as usize];
        match a {
            Get(v) => {
                let g = ctx.get(var(v))?;
                self.saw("a read", v, *g);
            }
            Set(v) => {
                let mut g = ctx.get_mut(var(v))?;
                self.saw("a write guard", v, *g);
                *g = self.fresh();
                let x = *g;
                drop(g);
                self.m.borrow_mut()[v as usize] = x;
            }
            SetCopy(v) => {
                let c = var(v).clone();
                let x = self.fresh();
                *ctx.get_mut(&c)? = x;
                self.m.borrow_mut()[v as usize] = x;
                self.saw("a look through a copy", v, c.get());
            }
            ReadWrite(r, w, read_first, close_read_first) => {
                let (rg, mut wg);
                if read_first {
                    rg = ctx.get(var(r))?;
                    wg = ctx.get_mut(var(w))?;
                } else {
                    wg = ctx.get_mut(var(w))?;
                    rg = ctx.get(var(r))?;
                }
                self.saw("a read", r, *rg);
                self.saw("a write guard", w, *wg);
                *wg = (*rg % 1_000_000) * 1000 + self.fresh();
                let x = *wg;
                if close_read_first {
                    drop(rg);
                    drop(wg);
                } else {
                    drop(wg);
                    drop(rg);
                }
                self.m.borrow_mut()[w as usize] = x;
            }
            WriteBoth(a, b, same) => {
                let mut x = ctx.get_mut(var(a))?;
                let mut y = ctx.get_mut(var(b))?;
                self.saw("a write guard", a, *x);
                self.saw("a write guard", b, *y);
                std::mem::swap(&mut *x, &mut *y);
                *x = *x % 1_000_000 * 1000 + self.fresh();
                let n = (*x, *y);
                if same {
                    drop(x);
                    drop(y);
                } else {
                    drop(y);
                    drop(x);
                }
                self.m.borrow_mut()[a as usize] = n.0;
                self.m.borrow_mut()[b as usize] = n.1;
            }
            ReadBoth(a, b) => {
                let x = ctx.get(var(a))?;
                let y = ctx.get(var(b))?;
                self.saw("a read", a, *x);
                self.saw("a read", b, *y);
            }
            Inner(a, b, write) => {
                let (mut w, mut r) = (None, None);
                if write {
                    let mut g = ctx.get_mut(var(a))?;
                    *g = self.fresh();
                    w = Some(g);
                } else {
                    r = Some(ctx.get(var(a))?);
                }
                self.rlu.clone().execute(|c| self.act(&c, Set(b)).and_then(|_| self.act(&c, Get(b))))?;
                if let Some(g) = w {
                    let x = *g;
                    drop(g);
                    self.m.borrow_mut()[a as usize] = x;
                }
                if let Some(r) = r {
                    self.saw("a read guard held meanwhile", a, *r);
                }
            }
        }
        Ok(())
    }
}

fn strategy(h: How) -> RLUStrategy {
    match h {
        How::Abort => RLUStrategy::Abort,
        How::Retry => RLUStrategy::Retry,
        How::Breaker => RLUStrategy::RetryWithBreaker(BusyBreaker::new(3)),
    }
}

fn history(how: How, sections: &[(Vec<Act>, End)]) -> Result<(), String> {
    let rlu = RLU::with_strategy(strategy(how));
    let one = One { v: vec![rlu.create(1), rlu.create(2)], rlu, m: RefCell::new(vec![1, 2]), next: Cell::new(10), bad: RefCell::new(None) };
    for (i, (acts, end)) in sections.iter().enumerate() {
        let runs = Cell::new(0);
        let e = |s: String| format!("section {i}: {s}");
        let r = one.rlu.execute(|ctx| {
            runs.set(runs.get() + 1);
            if runs.get() > 4 {
                return Err(TransactionError::Abort);
            }
            for a in acts {
                one.act(&ctx, *a)?;
            }
            if *end == End::Once && runs.get() == 1 { no() } else { Ok(()) }
        });
        if let Some(b) = one.bad.borrow().as_ref() {
            return Err(e(b.clone()));
        }
        let want_runs = if *end == End::Once && how != How::Abort { 2 } else { 1 };
        match (&r, end, how) {
            (Err(TransactionError::Failed), End::Once, How::Abort) => (),
            (Ok(()), End::Fine, _) | (Ok(()), _, How::Retry | How::Breaker) => (),
            _ => return Err(e(format!("gave {r:?} after {} runs", runs.get()))),
        }
        if runs.get() != want_runs {
            return Err(e(format!("the function ran {} times instead of {want_runs}", runs.get())));
        }
        for v in 0..2 {
            let (got, want) = (one.v[v].get(), one.m.borrow()[v]);
            if got != want {
                return Err(e(format!("afterwards variable {v} holds {got} instead of {want}")));
            }
        }
    }
    Ok(())
}

fn acts() -> Vec<Act> {
    let mut a = vec![];
    for v in 0..2 {
        a.extend([Get(v), Set(v), SetCopy(v)]);
        for x in [true, false] {
            for y in [true, false] {
                a.push(ReadWrite(v, 1 - v, x, y));
            }
            a.push(WriteBoth(v, 1 - v, x));
            a.push(Inner(v, 1 - v, x));
        }
        a.push(ReadBoth(v, 1 - v));
    }
    a
}

fn alone(r: &mut Report) {
    let acts = acts();
    let mut sections: Vec<(Vec<Act>, End)> = vec![];
    for end in [End::Fine, End::Once] {
        for a in &acts {
            sections.push((vec![*a], end));
        }
    }
    let short = sections.len() as u64;
    for end in [End::Fine, End::Once] {
        for a in &acts {
            for b in &acts {
                sections.push((vec![*a, *b], end));
            }
        }
    }
    let all = sections.len() as u64;
    let hows = [How::Abort, How::Retry, How::Breaker];
    // two long sections, or three short ones, or one very long one
    let t = r.thorough();
    let (n2, n3, n4) = (all * all, short.pow(3), (acts.len() as u64).pow(if t { 5 } else { 4 }));
    let n = if t { 3 } else { 1 } * n2 + 3 * n3 + n4;
    let pick = |mut i: u64| -> (How, Vec<(Vec<Act>, End)>) {
        let k2 = if t { 3 } else { 1 };
        if i < k2 * n2 {
            let how = if t { hows[(i % 3) as usize] } else { hows[((i / 7) % 3) as usize] };
            let i = if t { i / 3 } else { i };
            return (how, vec![sections[(i / all) as usize].clone(), sections[(i % all) as usize].clone()]);
        }
        i -= k2 * n2;
        if i < 3 * n3 {
            let how = hows[(i % 3) as usize];
            return (how, digits(i / 3, short, 3).into_iter().map(|d| sections[d].clone()).collect());
        }
        i -= 3 * n3;
        (How::Abort, vec![(digits(i, acts.len() as u64, if t { 5 } else { 4 }).into_iter().map(|d| acts[d]).collect(), End::Fine)])
    };
    let case = |i: u64, out: &mut Outcome| {
        let (how, s) = pick(i);
        let (h2, s2) = (how, s.clone());
        if let Err(e) = guard(move || history(h2, &s2)).unwrap_or_else(|e| Err(format!("panic: {e}"))) {
            out.fail(format!("one thread: {how:?} {s:?}"), e);
        }
        out.count("histories of one thread", 1);
        out.see(&i);
    };
    let describe = |i: u64| format!("one thread: {:?}", pick(i));
    r.absorb("one thread", run_cases(n, 20, &case, &describe));
}

/// numbers of guards, runs and trips
fn amounts(r: &mut Report) {
    let t = r.thorough();
    let n = if t { 200u64 } else { 70 };
    let case = |i: u64, out: &mut Outcome| {
        let i = i as usize;
        let f = move || -> Result<(), String> {
            // many variables written in one section, one after another and all at once
            for (at_once, backwards) in [(false, false), (true, false), (true, true)] {
                let rlu = RLU::with_strategy(RLUStrategy::Abort);
                let v: Vec<RLUVar<u64>> = (0..i).map(|k| rlu.create(k as u64)).collect();
                rlu.execute(|ctx| {
                    let mut held = vec![];
                    for x in &v {
                        let mut g = ctx.get_mut(x)?;
                        *g += 1000;
                        if at_once {
                            held.push(g);
                        }
                    }
                    if backwards {
                        held.reverse();
                    }
                    for g in held {
                        drop(g);
                    }
                    Ok(())
                })
                .map_err(|e| e.to_string())?;
                for (k, x) in v.iter().enumerate() {
                    if x.get() != k as u64 + 1000 {
                        return Err(format!("{i} variables written in a section, at once {at_once}: number {k} holds {}", x.get()));
                    }
                }
            }
            // one variable written many times in a section, and in many sections
            for many in [false, true] {
                let rlu = RLU::with_strategy(RLUStrategy::Abort);
                let v = rlu.create(0u64);
                for _ in 0..if many { i } else { 1 } {
                    rlu.execute(|ctx| {
                        for _ in 0..if many { 1 } else { i } {
                            *ctx.get_mut(&v)? += 1;
                        }
                        Ok(())
                    })
                    .map_err(|e| e.to_string())?;
                }
                if v.get() != i as u64 {
                    return Err(format!("{i} writes, in sections of their own {many}: the variable holds {}", v.get()));
                }
            }
            // retried as often as needed
            let rlu = RLU::<u64>::new();
            let v = rlu.create(0);
            let runs = Cell::new(0);
            rlu.execute(|ctx| {
                runs.set(runs.get() + 1);
                *ctx.get_mut(&v)? += 1;
                if runs.get() <= i { no() } else { Ok(()) }
            })
            .map_err(|e| format!("{i} failures: {e}"))?;
            if runs.get() != i + 1 || v.get() != i as u64 + 1 {
                return Err(format!("{i} failures: {} runs, the variable holds {}", runs.get(), v.get()));
            }
            // a breaker allows so many
            if i < 10 {
                let b = BusyBreaker::new(i);
                for round in 0..2 {
                    for k in 0..i + 4 {
                        let want = k <= i;
                        let b2 = b.clone();
                        if b2.spin().is_ok() != want || b.spin().is_ok() != want {
                            return Err(format!("a breaker for {i} trips: trip {k} (round {round}) is {}", !want));
                        }
                    }
                    b.reset();
                }
                for fails in 0..i + 4 {
                    let rlu = RLU::<u64>::with_strategy(RLUStrategy::RetryWithBreaker(BusyBreaker::new(i)));
                    let runs = Cell::new(0);
                    let r = rlu.execute(|_| {
                        runs.set(runs.get() + 1);
                        if runs.get() <= fails { no() } else { Ok(()) }
                    });
                    let (want, n) = if fails <= i + 1 { (true, fails + 1) } else { (false, i + 2) };
                    if r.is_ok() != want || runs.get() != n {
                        return Err(format!("a breaker for {i} trips, {fails} failures: {r:?} after {} runs", runs.get()));
                    }
                }
            }
            // any type, and the object that brings its own controller
            let o = RLUObject::from(vec![0u8; i]);
            let o2 = o.clone();
            o.ctrl().execute(|ctx| {
                ctx.get_mut(o.var())?.push(7);
                let g = ctx.get(o2.var())?;
                if g.len() == i + 1 && g[i] == 7 { Ok(()) } else { Err(TransactionError::Abort) }
            })
            .map_err(|e| e.to_string())?;
            if o2.var().get().len() != i + 1 {
                return Err("an object's copy holds something else".into());
            }
            Ok(())
        };
        if let Err(e) = guard(f).unwrap_or_else(|e| Err(format!("panic: {e}"))) {
            out.fail(format!("amounts: {}", first_line(&e)), format!("{i}: {e}"));
        }
        out.see(&i);
    };
    r.absorb("amounts", run_cases(n, 20, &case, &|i| format!("amounts: {i}")));
}

// ---------------------------------------------------------------- several threads

/// one thread's calls; each is a section of its own
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Call {
    /// reads
    R(u8),
    /// adds one
    A(u8),
    /// adds one and then reads, in one section
    AR(u8),
    /// reads one, with it held adds it to another
    RA(u8, u8),
}
use Call::*;

/// whether it succeeded, what it read in the end, and how much it has added (also in runs that failed later)
type Did = (bool, Vec<(u8, u64)>, u64);
fn call(rlu: &RLU<u64>, v: &[RLUVar<u64>], c: Call) -> Did {
    let seen = RefCell::new(vec![]);
    let added = Cell::new(0);
    let add = |n: u64| added.set(added.get() + n);
    let r = rlu.execute(|ctx| {
        seen.borrow_mut().clear();
        match c {
            R(a) => {
                let x = *ctx.get(&v[a as usize])?;
                seen.borrow_mut().push((a, x));
            }
            A(a) => {
                *ctx.get_mut(&v[a as usize])? += 1;
                add(1);
            }
            AR(a) => {
                *ctx.get_mut(&v[a as usize])? += 1;
                add(1);
                let x = *ctx.get(&v[a as usize])?;
                seen.borrow_mut().push((a, x));
            }
            RA(a, b) => {
                let g = ctx.get(&v[a as usize])?;
                let mut w = ctx.get_mut(&v[b as usize])?;
                *w += *g;
                add(*g);
                seen.borrow_mut().push((a, *g));
            }
        }
        Ok(())
    });
    (r.is_ok(), seen.into_inner(), added.get())
}

fn together(r: &mut Report) {
    let t = r.thorough();
    // every thread has variables that nobody else writes
    let mut all: Vec<(Vec<Vec<Call>>, u32)> = vec![];
    let own = |v: u8| vec![vec![A(v)], vec![AR(v)], vec![A(v), A(v)], vec![A(v), R(v)], vec![R(v), A(v)]];
    let two = if t { 3 } else { 2 };
    for a in own(0) {
        for b in own(1) {
            all.push((vec![a.clone(), b], two));
        }
        // with a variable that both only read
        for b in [vec![RA(2, 1)], vec![R(2), A(1)], vec![R(2), R(2)]] {
            all.push((vec![a.clone(), b], two));
        }
    }
    all.push((vec![vec![RA(2, 0)], vec![RA(2, 1)]], two));
    for a in [vec![A(0)], vec![AR(0)]] {
        for b in [vec![A(1)], vec![AR(1)]] {
            for c in [vec![A(3)], vec![R(2)]] {
                all.push((vec![a.clone(), b.clone(), c], if t { 2 } else { 1 }));
            }
        }
    }
    // on the same variable: no more is claimed than that what is read was there, that what is there was written, and
    // that all of them come to an end
    let loose_from = all.len();
    let same = [vec![R(0)], vec![A(0)], vec![AR(0)], vec![R(0), A(0)], vec![A(0), R(0)], vec![A(0), A(0)]];
    for a in 0..same.len() {
        for b in a..same.len() {
            all.push((vec![same[a].clone(), same[b].clone()], two));
        }
    }
    for a in [A(0), AR(0)] {
        for b in [A(0), AR(0)] {
            for c in [A(0), R(0)] {
                all.push((vec![vec![a], vec![b], vec![c]], if t { 2 } else { 1 }));
            }
        }
    }
    let case = |i: u64, out: &mut Outcome| {
        let (threads, bound) = &all[i as usize];
        let mut bad: Option<(String, String)> = None;
        let (n, whole) = sched::explore(*bound, 3_000_000, |plan| {
            let rlu = RLU::with_strategy(RLUStrategy::Retry);
            let v: Vec<RLUVar<u64>> = [100, 200, 300, 400].iter().map(|x| rlu.create(*x)).collect();
            type Log = Vec<Vec<Result<Did, String>>>;
            let got: Arc<Mutex<Log>> = Arc::new(Mutex::new(vec![vec![]; threads.len()]));
            let bodies: Vec<Box<dyn FnOnce() + Send>> = threads
                .iter()
                .enumerate()
                .map(|(i, calls)| {
                    let (rlu, v, calls, got) = (rlu.clone(), v.clone(), calls.clone(), got.clone());
                    Box::new(move || {
                        for c in calls {
                            let x = guard(|| call(&rlu, &v, c));
                            got.lock().unwrap()[i].push(x);
                        }
                        drop(v);
                        drop(rlu);
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            let run = sched::execute(bodies, plan, 100_000, false);
            out.count("schedules", 1);
            out.count("schedule points", run.steps as u64);
            let log = got.lock().unwrap().clone();
            let how = format!("{} under the schedule {:?}: {log:?}", crate::lin::show(threads), &run.switches[..run.switches.len().min(100)]);
            if run.end != sched::End::Finished {
                let e = if run.end == sched::End::Deadlock { "deadlock" } else { "never ends" };
                bad = Some((e.into(), how));
                std::mem::forget((rlu, v));
                return None;
            }
            let mut now: Vec<u64> = vec![100, 200, 300, 400];
            if i as usize >= loose_from {
                let most = 100 + log.iter().flatten().map(|r| r.as_ref().map(|x| x.2).unwrap_or(0)).sum::<u64>();
                let seen: Vec<u64> = log.iter().flatten().flat_map(|r| r.as_ref().map(|x| x.1.iter().map(|y| y.1).collect()).unwrap_or_else(|_| vec![0])).collect();
                let end = v[0].get();
                if !log.iter().flatten().all(|r| r.is_ok()) {
                    bad = Some(("panic".into(), how));
                    return None;
                }
                if seen.iter().chain([&end]).any(|x| *x < 100 || *x > most) {
                    bad = Some(("a value that nobody wrote".into(), format!("{how}: at the end {end}")));
                    return None;
                }
                return Some(run);
            }
            for (calls, log) in threads.iter().zip(&log) {
                for (c, r) in calls.iter().zip(log) {
                    let (ok, seen, added) = match r {
                        Err(p) => {
                            bad = Some((format!("panic: {}", first_line(p)), how));
                            return None;
                        }
                        Ok(x) => x,
                    };
                    match c {
                        R(_) => (),
                        A(a) | AR(a) | RA(_, a) => now[*a as usize] += added,
                    }
                    if *ok {
                        for (v, x) in seen {
                            if *x != now[*v as usize] {
                                bad = Some((format!("a read of what nobody else writes gives {x} instead of {}", now[*v as usize]), how));
                                return None;
                            }
                        }
                    } else {
                        out.count("sections that reported an error", 1);
                    }
                }
            }
            let end: Vec<u64> = v.iter().map(|x| x.get()).collect();
            if end != now {
                bad = Some((format!("the variables hold {end:?} instead of {now:?} though nobody else wrote them"), how));
                return None;
            }
            Some(run)
        });
        out.see(&crate::lin::show(threads));
        out.sample(|| format!("{}: {n} schedules", crate::lin::show(threads)));
        if !whole {
            out.count("scenarios cut off", 1);
        }
        if let Some((k, d)) = bad {
            out.fail(format!("{threads:?}: {k}"), d);
        }
    };
    let describe = |i: u64| crate::lin::show(&all[i as usize].0);
    r.absorb("schedules", run_cases(all.len() as u64, if t { 900 } else { 60 }, &case, &describe));
}

pub fn run(tier: &str) -> i32 {
    let mut r = Report::new("C18", tier, "model_checking");
    alone(&mut r);
    amounts(&mut r);
    together(&mut r);
    r.set("bounds", serde_json::json!({
        "one thread": "every pair of sections of one or two actions, every triple of sections of one action, every section of four actions; 24 actions, three strategies",
        "several threads": "two threads with one or two sections each on variables that only one of them writes, 2-3 preemptions; three threads, 1-2 preemptions",
    }));
    r.finish()
}
