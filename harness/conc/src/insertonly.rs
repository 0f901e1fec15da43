//! InsertOnlyVec: pushes and reads from several threads.
use crate::{ALLOC_POINTS, End, Job, Scenario};
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use utils::InsertOnlyVec;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Push,
    Get(usize),
    Index(usize),
    Last,
    Len,
    IsEmpty,
    Debug,
    Clone,
    Outside,
}

#[derive(Debug, Clone)]
struct Elem(u64);

struct World {
    vec: InsertOnlyVec<Elem>,
    prefilled: usize,
    /// addresses of all elements ever handed to the vector, by value
    addr: Mutex<Vec<(usize, u64)>>,
    started: AtomicUsize,
    completed: AtomicUsize,
    pushed: Mutex<Vec<(usize, u64)>>,
}

impl World {
    fn value(&self, at: &Elem) -> u64 {
        let p = at as *const Elem as usize;
        match self.addr.lock().unwrap().iter().find(|(a, _)| *a == p) {
            Some((_, v)) => {
                assert_eq!(at.0, *v, "an element changed");
                *v
            }
            None => panic!("a reference to {p:#x}, which is no element"),
        }
    }

    fn run(&self, op: Op, id: u64) {
        let before = self.prefilled + self.completed.load(SeqCst);
        let after = || self.prefilled + self.started.load(SeqCst);
        match op {
            Op::Push => {
                let b = Box::pin(Elem(id));
                self.addr.lock().unwrap().push((&*b as *const Elem as usize, id));
                self.started.fetch_add(1, SeqCst);
                let (r, i) = self.vec.push(b);
                assert_eq!(self.value(r), id, "push returned a reference to another element");
                self.completed.fetch_add(1, SeqCst);
                self.pushed.lock().unwrap().push((i, id));
            }
            Op::Get(i) => match self.vec.get(i) {
                Some(r) => {
                    let v = self.value(r);
                    assert!(i >= self.prefilled || v == i as u64, "element {i} is {v}");
                    assert!(i < after(), "element {i} came from nowhere");
                }
                None => assert!(i >= before, "element {i} is missing, there were {before}"),
            },
            Op::Index(i) => assert_eq!(self.value(&self.vec[i]), i as u64),
            Op::Outside => {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.vec[50].0));
                assert!(r.is_err(), "an element that was never added");
            }
            Op::Last => match self.vec.last() {
                Some(r) => {
                    let v = self.value(r);
                    assert!(v >= 100 || v as usize + 1 >= before, "element {v} was not the last of {before}");
                }
                None => assert_eq!(before, 0),
            },
            Op::Len => {
                let n = self.vec.len();
                assert!(before <= n && n <= after(), "length {n}, expected between {before} and {}", after());
            }
            Op::IsEmpty => {
                if self.vec.is_empty() {
                    assert_eq!(before, 0, "empty");
                } else {
                    assert!(after() > 0);
                }
            }
            Op::Debug => {
                let s = format!("{:?}", self.vec);
                let n = s.matches("Elem(").count();
                assert!(before <= n && n <= after(), "{s}");
            }
            Op::Clone => {
                let c = self.vec.clone();
                let n = c.len();
                assert!(before <= n && n <= after());
                for i in 0..self.prefilled {
                    assert_eq!(c[i].0, i as u64);
                }
            }
        }
    }
}

fn world(prefilled: usize) -> Arc<World> {
    let w = World {
        vec: Default::default(),
        prefilled,
        addr: Mutex::new(Vec::with_capacity(64)),
        started: AtomicUsize::new(0),
        completed: AtomicUsize::new(0),
        pushed: Mutex::new(Vec::with_capacity(64)),
    };
    for i in 0..prefilled {
        let b = Box::pin(Elem(i as u64));
        w.addr.lock().unwrap().push((&*b as *const Elem as usize, i as u64));
        w.vec.push(b);
    }
    Arc::new(w)
}

fn end(w: &World) -> Result<(), String> {
    let mut pushed = w.pushed.lock().unwrap().clone();
    pushed.sort();
    let want: Vec<usize> = (w.prefilled..w.prefilled + pushed.len()).collect();
    if pushed.iter().map(|x| x.0).collect::<Vec<_>>() != want {
        return Err(format!("indexes of the pushed elements: {pushed:?}"));
    }
    if w.vec.len() != w.prefilled + pushed.len() {
        return Err(format!("{} elements in the end", w.vec.len()));
    }
    for (i, v) in pushed {
        if w.vec[i].0 != v {
            return Err(format!("element {i} is {}, but {v} was pushed there", w.vec[i].0));
        }
    }
    for i in 0..w.prefilled {
        if w.vec[i].0 != i as u64 {
            return Err(format!("element {i} is {}", w.vec[i].0));
        }
    }
    let all: HashSet<u64> = (0..w.vec.len()).map(|i| w.vec[i].0).collect();
    if all.len() != w.vec.len() {
        return Err("an element is there twice".into());
    }
    Ok(())
}

pub fn scenarios(thorough: bool) -> Vec<Scenario> {
    ALLOC_POINTS.store(true, SeqCst);
    let mut out = vec![];
    for pre in if thorough { vec![0, 1, 3, 4] } else { vec![0, 3, 4] } {
        let mut ops = vec![Op::Push, Op::Get(0), Op::Get(pre), Op::Get(pre + 1), Op::Last, Op::Len, Op::IsEmpty, Op::Debug, Op::Clone, Op::Outside];
        if pre > 0 {
            ops.push(Op::Index(0));
            ops.push(Op::Index(pre - 1));
            ops.push(Op::Get(pre - 1));
        }
        let mut programs: Vec<(usize, Vec<Vec<Op>>)> = vec![];
        // two threads: one operation each, all interleavings; two operations each
        for (i, a) in ops.iter().enumerate() {
            for b in &ops[i..] {
                let long = |o: &Op| matches!(o, Op::Debug | Op::Clone);
                programs.push((if long(a) && long(b) { 6 } else { usize::MAX }, vec![vec![*a], vec![*b]]));
            }
        }
        let short: Vec<Op> = ops.iter().copied().filter(|o| thorough || !matches!(o, Op::Debug | Op::Clone)).collect();
        let seqs: Vec<Vec<Op>> = short.iter().flat_map(|a| short.iter().map(|b| vec![*a, *b])).collect();
        for (i, a) in seqs.iter().enumerate() {
            for b in &seqs[i..] {
                let pushes = a.iter().chain(b).filter(|o| **o == Op::Push).count();
                if pushes > 1 || thorough && pushes == 1 {
                    programs.push((if thorough { 4 } else { 3 }, vec![a.clone(), b.clone()]));
                }
            }
        }
        // three threads
        for (i, a) in ops.iter().enumerate() {
            for (j, b) in ops.iter().enumerate().skip(i) {
                for c in &ops[j..] {
                    if [a, b, c].contains(&&Op::Push) {
                        programs.push((if thorough { 3 } else { 2 }, vec![vec![*a], vec![*b], vec![*c]]));
                    }
                }
            }
        }
        if thorough {
            for a in &ops {
                programs.push((4, vec![vec![Op::Push, Op::Push], vec![*a, Op::Push], vec![*a, *a]]));
                programs.push((3, vec![vec![Op::Push], vec![Op::Push], vec![*a], vec![*a]]));
            }
        }
        for (bound, p) in programs {
            let name = format!("vec{pre} {p:?}").replace("[[", "[").replace("]]", "]");
            out.push(Scenario {
                name,
                bound,
                make: Box::new(move || {
                    let w = world(pre);
                    let jobs = p
                        .iter()
                        .enumerate()
                        .map(|(t, ops)| {
                            let w = w.clone();
                            let ops = ops.clone();
                            Box::new(move || {
                                for (k, op) in ops.iter().enumerate() {
                                    w.run(*op, 100 + t as u64 * 10 + k as u64);
                                }
                            }) as Job
                        })
                        .collect();
                    (jobs, Box::new(move || end(&w)) as End)
                }),
            });
        }
    }
    out.extend(exclusive(if thorough { 6 } else { 5 }));
    out.extend(guards(thorough));
    out
}

/// What an owner can do, compared with a plain list.
#[derive(Clone, Copy, Debug)]
enum Own {
    Push,
    Set(usize),
    Write(usize),
    WriteAll,
    Clear,
    Clone,
    Rebuild,
    Pop,
}

fn exclusive(depth: usize) -> Vec<Scenario> {
    const ALL: [Own; 9] =
        [Own::Push, Own::Set(0), Own::Set(1), Own::Write(1), Own::WriteAll, Own::Clear, Own::Clone, Own::Rebuild, Own::Pop];
    ALL.iter()
        .flat_map(|a| ALL.iter().map(move |b| [*a, *b]))
        .map(|first| Scenario {
            name: format!("owner {first:?}..."),
            bound: 0,
            make: Box::new(move || {
                let job = Box::new(move || {
                    let mut ops = first.to_vec();
                    ops.resize(depth, Own::Push);
                    let mut at = vec![0; depth - 2];
                    loop {
                        for (k, x) in at.iter().enumerate() {
                            ops[k + 2] = ALL[*x];
                        }
                        owner(&ops);
                        let Some(k) = at.iter().rposition(|x| *x + 1 < ALL.len()) else { break };
                        at[k] += 1;
                        at[k + 1..].fill(0);
                    }
                }) as Job;
                (vec![job], Box::new(|| Ok(())) as End)
            }),
        })
        .collect()
}

fn owner(ops: &[Own]) {
    let mut v: InsertOnlyVec<Elem> = Default::default();
    let mut m: Vec<u64> = vec![];
    for (k, op) in ops.iter().enumerate() {
        let new = k as u64 * 10;
        match *op {
            Own::Push => {
                let (e, i) = v.push(Box::pin(Elem(new)));
                assert_eq!((e.0, i), (new, m.len()), "{ops:?}");
                m.push(new);
            }
            Own::Set(i) if i < m.len() => {
                v.set(i, Box::pin(Elem(new)));
                m[i] = new;
            }
            Own::Write(i) if i < m.len() => {
                v[i].0 += 1;
                m[i] += 1;
            }
            Own::WriteAll => {
                v.iter_mut().for_each(|e| e.0 += 2);
                m.iter_mut().for_each(|e| *e += 2);
            }
            Own::Clear => {
                v.clear();
                m.clear();
            }
            Own::Clone => {
                let mut old = v.clone();
                std::mem::swap(&mut old, &mut v);
                old.iter_mut().for_each(|e| e.0 = 77);
            }
            Own::Rebuild => v = InsertOnlyVec::from(v.into_iter().collect::<Vec<_>>()),
            Own::Pop => {
                assert_eq!(v.as_vec_mut().pop().map(|e| e.0), m.pop(), "{ops:?}");
            }
            _ => (),
        }
        assert_eq!((v.len(), v.is_empty()), (m.len(), m.is_empty()), "{ops:?}");
        assert_eq!(v.last().map(|e| e.0), m.last().copied(), "{ops:?}");
        for i in 0..m.len() + 1 {
            assert_eq!(v.get(i).map(|e| e.0), m.get(i).copied(), "{ops:?}");
        }
        for (i, x) in m.iter().enumerate() {
            assert_eq!(v[i].0, *x, "{ops:?}");
        }
    }
    let all: Vec<u64> = v.into_iter().map(|e| e.0).collect();
    assert_eq!(all, m, "{ops:?}");
}

/// References taken out of a lock keep the lock.
#[derive(Clone, Copy, Debug)]
enum Guard {
    Read,
    ReadSome,
    ReadNone,
    ReadIter,
    Write,
    WriteSome,
    WriteNone,
}

fn guarded(l: &shim::sync::RwLock<(u64, Vec<u64>)>, g: Guard) {
    use shim::sched::point;
    use utils::*;
    // Both numbers are equal whenever nobody writes.
    let seen = |x: u64, y: u64| assert_eq!(x, y, "half of a change was seen");
    match g {
        Guard::Read => {
            let r = MappedReadGuard::map(l.read().unwrap(), |x| x);
            let x = r.0;
            point("holding");
            seen(x, r.1[0]);
            seen(x, r.0);
        }
        Guard::ReadSome => {
            let r = MappedReadGuard::map_optional(l.read().unwrap(), |x| Some(&x.1)).unwrap();
            let x = r[0];
            point("holding");
            seen(x, *r.last().unwrap());
        }
        Guard::ReadNone => assert!(MappedReadGuard::map_optional(l.read().unwrap(), |x| x.1.get(9)).is_none()),
        Guard::ReadIter => {
            let guard = l.read().unwrap();
            let mut it = OwnedMappedReadGuard::map_owned(&guard, |x| x.1.iter());
            let x = *it.next().unwrap();
            point("holding");
            seen(x, *it.next_back().unwrap());
            assert_eq!(it.next(), None);
        }
        Guard::Write => {
            let mut w = MappedWriteGuard::map(l.write().unwrap(), |x| x);
            w.0 += 1;
            point("holding");
            w.1[0] += 1;
            point("holding");
            w.1[1] += 1;
            seen(w.0, w.1[0]);
            seen(w.0, w.1[1]);
        }
        Guard::WriteSome => {
            let mut w = MappedWriteGuard::map_optional(l.write().unwrap(), |x| Some(&mut *x)).unwrap();
            let new = w.0 + 1;
            w.1 = vec![new; 2];
            point("holding");
            w.0 = new;
        }
        Guard::WriteNone => assert!(MappedWriteGuard::map_optional(l.write().unwrap(), |x| x.1.get_mut(9)).is_none()),
    }
}

fn guards(thorough: bool) -> Vec<Scenario> {
    use Guard::*;
    let all = [Read, ReadSome, ReadNone, ReadIter, Write, WriteSome, WriteNone];
    let mut programs = vec![];
    for a in all {
        for b in all {
            programs.push((usize::MAX, vec![vec![a], vec![b]]));
            for c in all {
                programs.push((if thorough { usize::MAX } else { 3 }, vec![vec![a], vec![b], vec![c]]));
                programs.push((if thorough { usize::MAX } else { 4 }, vec![vec![a, b], vec![c]]));
            }
        }
    }
    programs
        .into_iter()
        .map(|(bound, p)| Scenario {
            name: format!("guards {p:?}").replace("[[", "[").replace("]]", "]"),
            bound,
            make: Box::new(move || {
                let l = Arc::new(shim::sync::RwLock::new((5, vec![5, 5])));
                let writes = p.iter().flatten().filter(|g| matches!(g, Write | WriteSome)).count() as u64;
                let jobs = p
                    .iter()
                    .map(|gs| {
                        let (l, gs) = (l.clone(), gs.clone());
                        Box::new(move || gs.iter().for_each(|g| guarded(&l, *g))) as Job
                    })
                    .collect();
                let end = move || {
                    let r = l.read().unwrap();
                    if (r.0, &r.1) == (5 + writes, &vec![5 + writes; 2]) { Ok(()) } else { Err(format!("{writes} writes, but {:?}", *r)) }
                };
                (jobs, Box::new(end) as End)
            }),
        })
        .collect()
}
