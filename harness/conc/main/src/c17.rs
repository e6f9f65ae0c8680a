//! C17: software transactions.
use crate::lin::{scenario, Bounds, World};
use mc::*;
use shim_stm::collections::{order, place};
use std::cell::Cell;
use std::sync::{Arc, Mutex};
use stm::stm::error::TxError;
use stm::stm::shared_value::SharedValue::{self, *};
use stm::stm::stm::Stm;
use stm::stm::transaction::Transaction;
use stm::stm::tvar::TVar;

/// What the function given to a transaction does. The numbers are variables.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    /// v += 1
    Inc(u8),
    /// a -= 1, b += 1
    Move(u8, u8),
    /// b = a + 1
    CopyInc(u8, u8),
    Swap(u8, u8),
    /// a = c without looking
    Blind(u8, usize),
    /// both without looking
    BlindBoth(usize),
    /// a = 20, then reads it and b, and writes b
    StoreLoad(u8, u8),
    /// gives both
    Both,
    /// the same, in a transaction that could have written
    BothRw,
    /// reads one twice
    Twice(u8),
    /// the first attempt writes and gives an error, the second one reads
    FailOnce(u8, u8),
    /// writes and panics
    Panic(u8, u8),
    /// reads both, writes only if a is even
    Maybe(u8, u8),
    /// a read-write transaction inside the function of another one
    Nested(u8, u8),
    /// a = b, b = c, c = a
    Turn,
    /// gives all three
    Three,
}
use Kind::*;

/// A transaction, and the order in which it goes through the variables when it locks them the first time.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Op(Kind, u8);
impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.1 == 0 { write!(f, "{:?}", self.0) } else { write!(f, "{:?}/{}", self.0, self.1) }
    }
}
const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [1, 0, 2], [1, 2, 0], [2, 1, 0], [0, 2, 1], [2, 0, 1]];

#[derive(Clone)]
struct W {
    stm: Stm,
    v: Vec<TVar>,
    notes: Arc<Mutex<Vec<String>>>,
    ids: Arc<Mutex<Vec<usize>>>,
    /// what the values always add up to
    sum: Option<usize>,
}

fn get(t: &mut Transaction, v: &TVar) -> Result<usize, TxError> {
    t.load::<usize>(v)
}
fn put(t: &mut Transaction, v: &TVar, x: usize) -> Result<(), TxError> {
    t.store(v, SharedUsize(x))
}

impl W {
    fn seen(&self, all: &[usize]) {
        if let Some(s) = self.sum {
            if all.iter().sum::<usize>() != s {
                self.notes.lock().unwrap().push(format!("an attempt saw {all:?} together"));
            }
        }
    }
    fn rw<U: std::fmt::Debug>(&self, only: bool, f: impl Fn(&mut Transaction, usize) -> Result<U, TxError>) -> String {
        let n = Cell::new(0);
        let g = |t: &mut Transaction| {
            let k = n.get();
            n.set(k + 1);
            if k == 1 {
                // as the order is random each time, those in each other's way do not stay there for ever
                order(&self.v.iter().map(place).collect::<Vec<_>>());
            }
            f(t, k)
        };
        match if only { self.stm.read_only(g) } else { self.stm.read_write(g) } {
            Ok(r) => {
                self.ids.lock().unwrap().push(r.tx_id);
                format!("{:?}", r.res)
            }
            Err(e) => format!("error {e}"),
        }
    }
    fn go(&self, k: Kind) -> String {
        let v = |i: u8| &self.v[i as usize];
        match k {
            Inc(a) => self.rw(false, |t, _| {
                let x = get(t, v(a))?;
                put(t, v(a), x + 1)?;
                Ok(x)
            }),
            Move(a, b) => self.rw(false, |t, _| {
                let (x, y) = (get(t, v(a))?, get(t, v(b))?);
                if self.v.len() == 2 {
                    self.seen(&[x, y]);
                }
                put(t, v(a), x.wrapping_sub(1))?;
                put(t, v(b), y.wrapping_add(1))?;
                Ok((x, y))
            }),
            CopyInc(a, b) => self.rw(false, |t, _| {
                let x = get(t, v(a))?;
                put(t, v(b), x + 1)?;
                Ok(x)
            }),
            Swap(a, b) => self.rw(false, |t, _| {
                let (x, y) = (get(t, v(a))?, get(t, v(b))?);
                put(t, v(b), x)?;
                put(t, v(a), y)?;
                Ok((x, y))
            }),
            Blind(a, c) => self.rw(false, |t, _| put(t, v(a), c)),
            BlindBoth(c) => self.rw(false, |t, _| {
                put(t, v(0), c)?;
                put(t, v(1), c)
            }),
            StoreLoad(a, b) => self.rw(false, |t, _| {
                put(t, v(a), 20)?;
                let (x, y) = (get(t, v(a))?, get(t, v(b))?);
                put(t, v(b), y + x)?;
                let z = get(t, v(b))?;
                Ok((x, y, z))
            }),
            Both | BothRw => self.rw(k == Both, |t, _| {
                let (x, y) = (get(t, v(0))?, get(t, v(1))?);
                if self.v.len() == 2 {
                    self.seen(&[x, y]);
                }
                Ok((x, y))
            }),
            Twice(a) => self.rw(true, |t, _| {
                let (x, y) = (get(t, v(a))?, get(t, v(a))?);
                if x != y {
                    self.notes.lock().unwrap().push(format!("an attempt read {x} and then {y} from the same variable"));
                }
                Ok((x, y))
            }),
            FailOnce(a, b) => self.rw(false, |t, n| {
                let x = get(t, v(a))?;
                if n == 0 {
                    put(t, v(a), 77)?;
                    put(t, v(b), 78)?;
                    return Err(TxError::Failed);
                }
                Ok(x)
            }),
            Panic(a, b) => {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    self.rw::<usize>(false, |t, _| {
                        put(t, v(a), 87)?;
                        // an attempt that meets another transaction is made again
                        let _ = get(t, v(b))?;
                        put(t, v(b), 88)?;
                        panic!("on purpose")
                    })
                }));
                match r {
                    Ok(s) => s,
                    Err(e) => panic_text(e),
                }
            }
            Maybe(a, b) => self.rw(false, |t, _| {
                let (x, y) = (get(t, v(a))?, get(t, v(b))?);
                if x % 2 == 0 {
                    put(t, v(b), y + x)?;
                }
                Ok((x, y))
            }),
            Nested(a, b) => self.rw(false, |t, n| {
                // once: the outer one may have to start again because of it
                if n == 0 {
                    self.stm.read_write(|u| {
                        let y = get(u, v(b))?;
                        put(u, v(b), y + 100)
                    })?;
                }
                let x = get(t, v(a))?;
                put(t, v(a), x + 1)?;
                Ok(x)
            }),
            Turn => self.rw(false, |t, _| {
                let (x, y, z) = (get(t, v(0))?, get(t, v(1))?, get(t, v(2))?);
                self.seen(&[x, y, z]);
                put(t, v(0), y)?;
                put(t, v(1), z)?;
                put(t, v(2), x)?;
                Ok((x, y, z))
            }),
            Three => self.rw(true, |t, _| {
                let (x, y, z) = (get(t, v(2))?, get(t, v(1))?, get(t, v(0))?);
                self.seen(&[x, y, z]);
                Ok((z, y, x))
            }),
        }
    }
}

impl World for W {
    type Op = Op;
    type Local = ();
    fn steps(o: &Op) -> usize {
        if matches!(o.0, Nested(..)) { 2 } else { 1 }
    }
    fn call(&self, op: &Op) -> String {
        let at: Vec<usize> = ORDERS[op.1 as usize].iter().filter(|i| **i < self.v.len()).map(|i| place(&self.v[*i])).collect();
        order(&at);
        self.go(op.0)
    }
    fn step(&self, op: &Op, k: usize, _: &mut ()) -> Option<String> {
        match (op.0, k) {
            (Nested(_, b), 0) => {
                self.stm
                    .read_write(|u| {
                        let y = get(u, &self.v[b as usize])?;
                        put(u, &self.v[b as usize], y + 100)
                    })
                    .unwrap();
                None
            }
            (Nested(a, _), _) => Some(self.go(Inc(a))),
            _ => unreachable!(),
        }
    }
    fn last(&self) -> String {
        let mut s = String::new();
        let all = || self.rw(true, |t, _| self.v.iter().map(|v| get(t, v)).collect::<Result<Vec<_>, _>>());
        s += &format!("the values {} ", all());
        // still usable
        s += &self.rw(false, |t, _| {
            for v in &self.v {
                let x = get(t, v)?;
                put(t, v, x + 1)?;
            }
            Ok(())
        });
        s += &format!(" and one more {}", all());
        for n in self.notes.lock().unwrap().iter() {
            s += &format!("; {n}");
        }
        let mut i = self.ids.lock().unwrap().clone();
        i.sort();
        if i.windows(2).any(|w| w[0] == w[1]) {
            s += &format!("; two transactions have the same id: {i:?}");
        }
        s
    }
}

/// the values at the beginning
fn setup(k: u8, vars: usize, keeps: bool) -> W {
    let stm = Stm::default();
    let vals = [4usize, 9, 6];
    let mut w = W { stm: stm.clone(), v: vec![], notes: Default::default(), ids: Default::default(), sum: None };
    match k {
        0 => w.v = vals.iter().take(vars).map(|x| stm.create(SharedUsize(*x))).collect(),
        1 => {
            // different versions
            w.v = vals.iter().take(vars).map(|_| stm.create(SharedUsize(0))).collect();
            for n in [0, 0, 1, 2, 1] {
                if n < vars {
                    w.go(Blind(n as u8, vals[n]));
                }
            }
        }
        _ => {
            // made late, and copied
            let old = stm.create(SharedUsize(0));
            w.v = vec![old];
            w.go(Inc(0));
            w.go(Inc(0));
            w.v = vals.iter().take(vars).map(|x| stm.create(SharedUsize(*x))).collect();
            w.v = w.v.iter().map(|v| v.clone()).collect();
        }
    }
    w.ids.lock().unwrap().clear();
    if keeps {
        w.sum = Some(vals.iter().take(vars).sum());
    }
    w
}
const SETUPS: [&str; 3] = ["new variables", "variables with different versions", "variables made later"];

/// does it keep the sum? does it go through more than one variable at the end?
fn keeps(k: Kind) -> bool {
    matches!(k, Move(..) | Swap(..) | Both | BothRw | Twice(_) | FailOnce(..) | Panic(..) | Turn | Three)
}
fn several(k: Kind) -> bool {
    !matches!(k, Inc(_) | Blind(..) | Twice(_) | FailOnce(..) | Panic(..) | Nested(..))
}
fn both_ways(ks: &[Kind]) -> Vec<Op> {
    ks.iter().flat_map(|k| if several(*k) { vec![Op(*k, 0), Op(*k, 1)] } else { vec![Op(*k, 0)] }).collect()
}

pub fn run(tier: &str) -> i32 {
    let mut r = Report::new("C17", tier, "model_checking");
    let t = r.thorough();
    // the harness does decide the order
    for o in ORDERS {
        let w = setup(0, 3, false);
        let at: Vec<usize> = o.iter().map(|i| place(&w.v[*i])).collect();
        order(&at);
        let set: shim_stm::collections::HashSet<TVar> = w.v.iter().cloned().collect();
        let got: Vec<usize> = set.iter().map(place).collect();
        if got != at {
            eprintln!("C17: the order of a hash table is not under control");
            return 2;
        }
    }
    let two = [
        Inc(0), Inc(1), Move(0, 1), Move(1, 0), CopyInc(0, 1), CopyInc(1, 0), Swap(0, 1), Blind(0, 30), BlindBoth(40),
        StoreLoad(0, 1), StoreLoad(1, 0), Both, BothRw, Twice(0), FailOnce(0, 1), Panic(0, 1), Maybe(0, 1), Maybe(1, 0), Nested(0, 0), Nested(0, 1),
    ];
    let (three, small): (Vec<Kind>, Vec<Kind>) = (
        vec![Move(0, 1), CopyInc(0, 1), CopyInc(1, 0), Inc(0), Both, BlindBoth(40), BothRw],
        vec![Move(0, 1), CopyInc(1, 0), Inc(0), Both],
    );
    let mut all: Vec<(u8, usize, Vec<Vec<Op>>, u32)> = vec![];
    let o = both_ways(&two);
    let nested = |k: &Op| matches!(k.0, Nested(..));
    for k in 0..3u8 {
        for a in 0..o.len() {
            for b in a..o.len() {
                // it is two transactions
                if nested(&o[a]) && nested(&o[b]) && k > 0 {
                    continue;
                }
                if o[a].1 == 1 && o[b].1 == 1 && !t {
                    continue; // the mirror image of both going the other way
                }
                all.push((k, 2, vec![vec![o[a]], vec![o[b]]], if t || k == 1 { 3 } else { 2 }));
            }
        }
    }
    let pairs = all.len();
    let o3 = both_ways(&three);
    let o2 = both_ways(&small);
    for k in if t { vec![0u8, 1] } else { vec![1] } {
        for a in &o3 {
            for b in &o2 {
                for c in &o3 {
                    if t || (a.1 == 0 && b.1 == 0) {
                        all.push((k, 2, vec![vec![*a, *b], vec![*c]], if t { 3 } else { 2 }));
                    }
                }
            }
        }
    }
    let more = all.len() - pairs;
    for k in if t { vec![0u8, 1] } else { vec![1] } {
        for a in 0..o3.len() {
            for b in a..o3.len() {
                for c in b..o3.len() {
                    if t || o3[a].1 == 0 {
                        all.push((k, 2, vec![vec![o3[a]], vec![o3[b]], vec![o3[c]]], if t { 2 } else { 1 }));
                    }
                }
            }
        }
    }
    let threes = all.len() - pairs - more;
    // three variables, and circles of locks
    for a in 0..6u8 {
        for b in a..6 {
            for (x, y) in [(Turn, Turn), (Turn, Three), (Turn, Move(0, 2)), (Turn, Move(2, 1)), (Three, Move(1, 2)), (Three, CopyInc(2, 0))] {
                all.push((1, 3, vec![vec![Op(x, a)], vec![Op(y, b)]], if t { 3 } else { 2 }));
            }
        }
    }
    for (x, y, z) in [(0u8, 2u8, 5u8), (0, 1, 2), (3, 4, 5)] {
        all.push((1, 3, vec![vec![Op(Turn, x)], vec![Op(Turn, y)], vec![Op(Turn, z)]], 1));
        all.push((1, 3, vec![vec![Op(Move(0, 1), 0)], vec![Op(Move(1, 2), 0)], vec![Op(Move(2, 0), 5)]], if t { 2 } else { 1 }));
        all.push((1, 3, vec![vec![Op(Move(0, 1), x)], vec![Op(Move(1, 2), y)], vec![Op(Three, z)]], if t { 2 } else { 1 }));
    }
    // deeper, for what takes two transactions in the way of a third one
    let before = all.len();
    for x in [Both, BothRw, CopyInc(1, 0)] {
        for (y, z) in [(Swap(0, 1), Swap(0, 1)), (Swap(0, 1), Inc(1)), (Swap(0, 1), Blind(0, 30))] {
            if !t && (x == BothRw || (x == CopyInc(1, 0)) != (z == Inc(1))) {
                continue;
            }
            all.push((1, 2, vec![vec![Op(x, 0)], vec![Op(y, 0)], vec![Op(z, 0)]], 3));
            all.push((1, 2, vec![vec![Op(x, 0)], vec![Op(y, 0), Op(z, 0)]], 4));
        }
    }
    let deep = all.len() - before;
    let circles = all.len() - deep - pairs - more - threes;
    let case = |i: u64, out: &mut Outcome| {
        let (k, vars, threads, bound) = &all[i as usize];
        let (k, vars) = (*k, *vars);
        let keep = threads.iter().flatten().all(|o| keeps(o.0));
        scenario(out, SETUPS[k as usize], Arc::new(move || setup(k, vars, keep)), threads, &Bounds { preemptions: *bound, executions: 300_000, steps: 200_000, detail: false, weak: false });
    };
    let describe = |i: u64| {
        let (k, _, threads, _) = &all[i as usize];
        format!("{}: {}", SETUPS[*k as usize], crate::lin::show(threads))
    };
    r.absorb("schedules", run_cases(all.len() as u64, if t { 3600 } else { 60 }, &case, &describe));
    alone(&mut r);
    r.set("bounds", serde_json::json!({
        "two threads with one transaction each, 2-4 preemptions, every order of locks": pairs,
        "two transactions against one, 2-3 preemptions": more,
        "three threads, 1-2 preemptions": threes,
        "three variables, 1-3 preemptions": circles,
        "three transactions, 3-5 preemptions": deep,
    }));
    r.finish()
}

// ---------------------------------------------------------------- one thread, all types

fn value(ty: usize, k: usize) -> SharedValue {
    let s = |n: usize| format!("text {n}");
    match ty {
        0 => SharedUsize(k),
        1 => SharedString(s(k)),
        2 => SharedHashSetOfString((0..k).map(s).collect()),
        3 => SharedVectorOfString((0..k).map(s).collect()),
        _ => SharedVectorOfUsize((0..k).collect()),
    }
}
/// load with a type, as a value again
fn typed(t: &mut Transaction, v: &TVar, ty: usize) -> Result<SharedValue, TxError> {
    Ok(match ty {
        0 => SharedUsize(t.load(v)?),
        1 => SharedString(t.load(v)?),
        2 => SharedHashSetOfString(t.load(v)?),
        3 => SharedVectorOfString(t.load(v)?),
        _ => SharedVectorOfUsize(t.load(v)?),
    })
}
fn taken(v: TVar, ty: usize) -> Result<SharedValue, TVar> {
    Ok(match ty {
        0 => SharedUsize(v.take()?),
        1 => SharedString(v.take()?),
        2 => SharedHashSetOfString(v.take()?),
        3 => SharedVectorOfString(v.take()?),
        _ => SharedVectorOfUsize(v.take()?),
    })
}
fn outside(v: &TVar, ty: usize) -> Result<SharedValue, TxError> {
    Ok(match ty {
        0 => SharedUsize(v.try_get_data()?),
        1 => SharedString(v.try_get_data()?),
        2 => SharedHashSetOfString(v.try_get_data()?),
        3 => SharedVectorOfString(v.try_get_data()?),
        _ => SharedVectorOfUsize(v.try_get_data()?),
    })
}

#[derive(Clone, Copy, Debug)]
enum One {
    Store(usize, usize),
    /// in one transaction: both variables, then both read back
    StoreTwo(usize, usize),
    Load(usize, usize),
    FailThenStore(usize, usize),
    PanicAfter(usize, usize),
    CopyOf(usize),
    DropCopy(usize),
    Take(usize, usize),
    Across,
}
use One::*;

fn alone(r: &mut Report) {
    let mut ops = vec![];
    for v in 0..2 {
        for ty in 0..5 {
            if v == 0 || ty < 2 {
                ops.extend([Store(v, ty), Load(v, ty), Take(v, ty)]);
            }
        }
        ops.extend([FailThenStore(v, 1 - v), PanicAfter(v, 2), CopyOf(v), DropCopy(v)]);
    }
    ops.extend([StoreTwo(0, 1), StoreTwo(3, 0), Across]);
    let depth = if r.thorough() { 4 } else { 3 };
    let n = (ops.len() as u64).pow(depth as u32);
    let case = |i: u64, out: &mut Outcome| {
        let hist: Vec<One> = digits(i, ops.len() as u64, depth).into_iter().map(|d| ops[d]).collect();
        let h = hist.clone();
        if let Err(e) = guard(move || history(&h)).unwrap_or_else(|e| Err(format!("panic: {e}"))) {
            out.fail(format!("one thread: {hist:?}"), e);
        }
        out.count("histories of one thread", 1);
        out.see(&i);
    };
    let describe = |i: u64| format!("one thread: history {i}");
    r.absorb("one thread", run_cases(n, 20, &case, &describe));
}

fn history(hist: &[One]) -> Result<(), String> {
    let stm = Stm::default();
    let mut model: [SharedValue; 2] = [value(0, 1), value(1, 2)];
    let mut vars: Vec<TVar> = model.iter().map(|m| stm.create(m.clone())).collect();
    let mut copies: [Vec<TVar>; 2] = [vec![], vec![]];
    let mut ids = std::collections::HashSet::new();
    let kind = |v: &SharedValue| match v {
        SharedUsize(_) => 0,
        SharedString(_) => 1,
        SharedHashSetOfString(_) => 2,
        SharedVectorOfString(_) => 3,
        SharedVectorOfUsize(_) => 4,
    };
    let mut take_id = |id: usize| if ids.insert(id) { Ok(()) } else { Err(format!("the transaction id {id} came twice")) };
    for (k, op) in hist.iter().enumerate() {
        let k = k + 2;
        let e = |s: String| format!("call {k} {op:?}: {s}");
        match *op {
            Store(v, ty) => {
                let x = stm.read_write(|t| t.store(&vars[v], value(ty, k))).map_err(|x| e(x.to_string()))?;
                take_id(x.tx_id)?;
                model[v] = value(ty, k);
            }
            StoreTwo(a, b) => {
                let x = stm
                    .read_write(|t| {
                        t.store(&vars[0], value(a, k + 7))?;
                        t.store(&vars[1], value(b, k))?;
                        t.store(&vars[0], value(a, k))?;
                        Ok((typed(t, &vars[0], a)?, typed(t, &vars[1], b)?))
                    })
                    .map_err(|x| e(x.to_string()))?;
                take_id(x.tx_id)?;
                model = [value(a, k), value(b, k)];
                if x.res != (model[0].clone(), model[1].clone()) {
                    return Err(e(format!("what was just stored was read as {:?}", x.res)));
                }
            }
            Load(v, ty) => {
                for only in [true, false] {
                    // the error is the function's own business
                    let f = |t: &mut Transaction| Ok(typed(t, &vars[v], ty));
                    let x = if only { stm.read_only(f) } else { stm.read_write(f) }.map_err(|x| e(x.to_string()))?;
                    take_id(x.tx_id)?;
                    let want = if kind(&model[v]) == ty { Ok(model[v].clone()) } else { Err(TxError::SharedValueWrongTypeConversion) };
                    if x.res != want {
                        return Err(e(format!("gave {:?} instead of {want:?}", x.res)));
                    }
                }
            }
            FailThenStore(v, other) => {
                let n = Cell::new(0);
                let x = stm
                    .read_write(|t| {
                        n.set(n.get() + 1);
                        if n.get() < 3 {
                            t.store(&vars[v], value(0, 66))?;
                            return Err(TxError::Failed);
                        }
                        t.store(&vars[other], value(0, k))
                    })
                    .map_err(|x| e(x.to_string()))?;
                take_id(x.tx_id)?;
                if n.get() != 3 {
                    return Err(e(format!("the function was called {} times", n.get())));
                }
                model[other] = value(0, k);
            }
            PanicAfter(v, ty) => {
                let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let _ = stm.read_write::<_, ()>(|t| {
                        t.store(&vars[v], value(ty, 55))?;
                        panic!("on purpose")
                    });
                }));
                if x.is_ok() {
                    return Err(e("no panic".into()));
                }
            }
            CopyOf(v) => copies[v].push(vars[v].clone()),
            DropCopy(v) => drop(copies[v].pop()),
            Take(v, ty) => {
                let var = vars[v].clone();
                vars[v] = var.clone();
                // the last one, if there are no copies
                let it = std::mem::replace(&mut vars[v], stm.create(value(0, 0)));
                drop(var);
                match taken(it, ty) {
                    Ok(x) => {
                        if !copies[v].is_empty() || kind(&model[v]) != ty || x != model[v] {
                            return Err(e(format!("gave {x:?} from {:?} with {} copies", model[v], copies[v].len())));
                        }
                        vars[v] = stm.create(model[v].clone());
                    }
                    Err(back) => {
                        if copies[v].is_empty() && kind(&model[v]) == ty {
                            return Err(e("refused for the only one".into()));
                        }
                        if let Some(c) = copies[v].first() {
                            if *c != back {
                                return Err(e("gave back another variable".into()));
                            }
                        }
                        vars[v] = back;
                    }
                }
            }
            Across => {
                // a copy of the variable is the same variable
                let c = vars[0].clone();
                let x = stm
                    .read_write(|t| {
                        t.store(&c, value(4, k))?;
                        typed(t, &vars[0], 4)
                    })
                    .map_err(|x| e(x.to_string()))?;
                take_id(x.tx_id)?;
                model[0] = value(4, k);
                if x.res != model[0] {
                    return Err(e(format!("read {:?} through another copy", x.res)));
                }
            }
        }
        for v in 0..2 {
            for one in std::iter::once(&vars[v]).chain(copies[v].iter()) {
                let ty = kind(&model[v]);
                match outside(one, ty) {
                    Ok(x) if x == model[v] => (),
                    x => return Err(e(format!("afterwards variable {v} holds {x:?} instead of {:?}", model[v]))),
                }
                match stm.read_only(|t| typed(t, one, ty)) {
                    Ok(x) if x.res == model[v] => take_id(x.tx_id)?,
                    Ok(x) => return Err(e(format!("afterwards variable {v} is read as {:?} instead of {:?}", x.res, model[v]))),
                    Err(x) => return Err(e(format!("afterwards variable {v} cannot be read: {x}"))),
                }
            }
        }
    }
    Ok(())
}
