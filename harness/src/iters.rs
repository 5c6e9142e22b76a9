//! Replays the table of spec/IteratorsMC.tla on an iterator: all methods of Iterator, at all places, must give what the items say.
use crate::rows::{self, Row};
use std::cell::Cell;
use std::fmt::Debug;

pub struct Table(Vec<Vec<Row>>);
impl Table {
    pub fn load(path: &str) -> Table {
        let mut t: Vec<Vec<Row>> = vec![];
        for r in rows::load(path) {
            let n = r.int("n") as usize;
            if t.len() <= n {
                t.resize(n + 1, vec![]);
            }
            t[n].push(r);
        }
        Table(t)
    }
    /// The most items of an iterator that is in the table
    pub fn most(&self) -> usize {
        self.0.len() - 1
    }
    /// make() must yield the items `want`
    pub fn agree<T: Copy + Debug, I: Iterator<Item = T>>(&self, make: impl Fn() -> I, same: impl Fn(T, T) -> bool, want: &[T]) -> Option<String> {
        for row in &self.0[want.len()] {
            let (m, p, k) = (row.str("m"), row.int("p") as usize, row.int("k") as usize);
            let res: Vec<usize> = row.ints("res").iter().map(|i| *i as usize).collect();
            let mut it = make();
            for i in 0..p {
                match it.next() {
                    Some(x) if same(x, want[i]) => (),
                    x => return Some(format!("next() number {} gives {x:?} instead of {:?}", i + 1, want[i])),
                }
            }
            // closures count the items that they are shown
            let at = Cell::new(p);
            let tick = || {
                at.set(at.get() + 1);
                at.get()
            };
            let bad = |what: String| Some(format!("{m}({k}) after {p} of the items {want:?} gives {what}"));
            let cut = 60;
            let mut items: Vec<T> = vec![];
            let mut numbers: Option<Vec<usize>> = None;
            match m {
                "next" => items.extend(it.next()),
                "nth" => items.extend(it.nth(k)),
                "find" => items.extend(it.find(|_| tick() == k)),
                "find_map" => items.extend(it.find_map(|x| (tick() == k).then_some(x))),
                "position" => numbers = Some(it.position(|_| tick() == k).into_iter().collect()),
                "any" => numbers = Some(vec![it.any(|_| tick() == k) as usize]),
                "all" => numbers = Some(vec![it.all(|_| tick() != k) as usize]),
                "try_fold" => {
                    let _ = it.try_fold((), |_, x| {
                        if tick() == k {
                            return None;
                        }
                        items.push(x);
                        Some(())
                    });
                }
                "try_for_each" => {
                    let _ = it.try_for_each(|x| {
                        if tick() == k {
                            return Err(());
                        }
                        items.push(x);
                        Ok(())
                    });
                }
                "take" => items.extend(it.by_ref().take(k)),
                "take_while" => items.extend(it.by_ref().take_while(|_| tick() != k)),
                "map_while" => items.extend(it.by_ref().map_while(|x| (tick() != k).then_some(x))),
                "size_hint" => {
                    let (lo, hi) = it.size_hint();
                    if lo > res[0] || hi.is_some_and(|h| h < res[0]) {
                        return bad(format!("{lo}, {hi:?}"));
                    }
                    numbers = Some(res.clone());
                }
                _ => {
                    match m {
                        "count" => numbers = Some(vec![it.count()]),
                        "last" => items.extend(it.last()),
                        "collect" => items = it.take(cut).collect(),
                        "fold" => {
                            items = it.fold(vec![], |mut v, x| {
                                v.push(x);
                                v
                            })
                        }
                        "for_each" => it.for_each(|x| items.push(x)),
                        "reduce" => {
                            let first = Cell::new(true);
                            let end = it.reduce(|a, b| {
                                if first.replace(false) {
                                    items.push(a);
                                }
                                items.push(b);
                                b
                            });
                            if first.get() {
                                items.extend(end);
                            }
                        }
                        "max" => items.extend(it.max_by(|_, _| std::cmp::Ordering::Less)),
                        "min" => items.extend(it.min_by(|_, _| std::cmp::Ordering::Less)),
                        "peek" => {
                            let mut it = it.peekable();
                            items.extend(it.peek().copied());
                            items.extend(it.take(cut));
                        }
                        "zip" => items = it.zip(0..cut).map(|(a, _)| a).collect(),
                        "partition" => {
                            let (a, b): (Vec<(usize, T)>, Vec<(usize, T)>) = it.map(|x| (tick(), x)).take(cut).partition(|x| x.0 % 2 == 0);
                            let mut all: Vec<_> = a.into_iter().chain(b).collect();
                            all.sort_by_key(|x| x.0);
                            items = all.into_iter().map(|x| x.1).collect();
                        }
                        "fuse" => items = it.fuse().take(cut).collect(),
                        "filter" => items = it.filter(|_| tick() != k).take(cut).collect(),
                        "skip_while" => items = it.skip_while(|_| tick() != k).take(cut).collect(),
                        "skip" => items = it.skip(k).take(cut).collect(),
                        "step_by" => items = it.step_by(k + 1).take(cut).collect(),
                        _ => crate::die(&format!("no method {m}")),
                    }
                    if let Some(e) = judge(&numbers, &items, &res, want, &same) {
                        return bad(e);
                    }
                    continue;
                }
            }
            if let Some(e) = judge(&numbers, &items, &res, want, &same) {
                return bad(e);
            }
            let to = row.int("at") as usize;
            for i in to..want.len() + 3 {
                let x = it.next();
                let ok = match (x, want.get(i)) {
                    (Some(x), Some(w)) => same(x, *w),
                    (None, None) => true,
                    _ => false,
                };
                if !ok {
                    return bad(format!("the right result, but then next() gives {x:?} instead of {:?}", want.get(i)));
                }
            }
        }
        None
    }
}
fn judge<T: Copy + Debug>(numbers: &Option<Vec<usize>>, items: &[T], res: &[usize], want: &[T], same: &dyn Fn(T, T) -> bool) -> Option<String> {
    match numbers {
        Some(n) => (n != res).then(|| format!("{n:?} instead of {res:?}")),
        None => (items.len() != res.len() || !items.iter().zip(res).all(|(x, i)| same(*x, want[*i - 1]))).then(|| format!("{items:?} instead of items {res:?}")),
    }
}
