//! C25: concurrent compilations, under a controlled scheduler (see sched.rs).
use crate::engine::{Case, Cx, Res};
use crate::fail;
use crate::progs;
use serde_json::json;
use std::io::{BufRead, BufReader, Read, Write};
use std::path::Path;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Runner {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
    /// alone: result, number of allocations; cold and warm
    solo: Vec<[(String, usize); 2]>,
}
struct Answer {
    /// per thread: allocations and deallocations, visible operations
    points: Vec<[usize; 2]>,
    forced: usize,
    taken: usize,
    /// per thread: the visible operations another thread's conflict with, and how often the
    /// location is accessed
    conflicts: Vec<Vec<(usize, usize)>>,
    results: Vec<String>,
}
/// class of the point (1 visible operation, 0 allocation), thread, point, successor
type Step = [usize; 4];

impl Runner {
    fn new(dir: &Path) -> Runner {
        let exe = std::env::current_exe().unwrap().parent().unwrap().join("../tsan/x86_64-unknown-linux-gnu/release/sched");
        let mut child = Command::new(exe).arg(dir).current_dir(dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("sched");
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        let mut r = Runner { child, to, from, solo: vec![] };
        for p in 0..progs::PROGS.len() {
            let mut one = |cold| {
                let a = r.ask(cold, &[p], 0, &[]).expect("a compilation alone");
                (a.results[0].clone(), a.points[0][0])
            };
            let x = [one(true), one(false)];
            r.solo.push(x);
        }
        r
    }
    fn ask(&mut self, cold: bool, ps: &[usize], first: usize, plan: &[Step]) -> Result<Answer, String> {
        let list: Vec<String> = ps.iter().map(|p| p.to_string()).collect();
        let steps: Vec<String> = plan.iter().map(|s| format!("{}:{}@{}>{}", s[0], s[1], s[2], s[3])).collect();
        writeln!(self.to, "{} {} {first} {}", if cold { "cold" } else { "warm" }, list.join(","), steps.join(",")).map_err(|e| e.to_string())?;
        self.to.flush().map_err(|e| e.to_string())?;
        let mut l = String::new();
        self.from.read_line(&mut l).map_err(|e| e.to_string())?;
        let n: usize = l.trim().parse().map_err(|_| format!("scheduler died: {l:?}"))?;
        let mut b = vec![0; n + 1];
        self.from.read_exact(&mut b).map_err(|e| e.to_string())?;
        let s = String::from_utf8_lossy(&b[..n]).into_owned();
        let mut parts = s.splitn(3, '\n');
        let (Some(head), Some(conf), Some(rest)) = (parts.next(), parts.next(), parts.next()) else {
            return Err(if s.is_empty() { "the process died".into() } else { s });
        };
        let w: Vec<&str> = head.split(' ').collect();
        let two = |x: &str, sep: char| {
            let (a, b) = x.split_once(sep).unwrap();
            (a.parse::<usize>().unwrap(), b.parse::<usize>().unwrap())
        };
        Ok(Answer {
            points: w[0].split(',').map(|x| two(x, '/')).map(|(a, b)| [a, b]).collect(),
            forced: w[1].parse().unwrap(),
            taken: w[2].parse().unwrap(),
            conflicts: conf.split(' ').map(|t| t.split(',').filter(|x| !x.is_empty()).map(|x| two(x, ':')).collect()).collect(),
            results: rest.split('\u{1}').map(|x| x.to_string()).collect(),
        })
    }
}
impl Drop for Runner {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn schedule(c: &mut Case, r: &mut Runner, cold: bool, ps: &[usize], first: usize, plan: &[Step]) -> Result<Answer, crate::engine::Fail> {
    let a = r.ask(cold, ps, first, plan);
    let names: Vec<String> = ps.iter().map(|p| progs::PROGS[*p].1.to_string()).collect();
    let desc = json!({"programs": names, "cold start": cold, "first": first, "preemptions (1 visible operation / 0 allocation, thread, number, successor)": plan});
    c.state(&format!("{cold} {ps:?} {first} {plan:?}"));
    c.trace();
    c.sample(|| desc.clone());
    let a = match a {
        Ok(a) => a,
        Err(e) => fail!(desc, "concurrent compilations: {e}"),
    };
    c.steps(a.taken + a.forced + ps.len());
    c.count(match a.taken {
        0 => "schedules without preemption",
        1 => "schedules with one preemption",
        2 => "schedules with two preemptions",
        _ => "schedules with three preemptions",
    });
    if a.forced > 0 {
        c.count("schedules with a blocked thread");
    }
    for (i, p) in ps.iter().enumerate() {
        c.steps(a.points[i][1]);
        let want = &r.solo[*p][0].0;
        let got = a.results.get(i).cloned().unwrap_or_default();
        c.outcome(&got);
        if *want != got {
            let mut d = desc;
            d["thread"] = json!(i);
            d["alone"] = json!(want);
            d["concurrently"] = json!(got);
            fail!(d, "a compilation gives another result when others run");
        }
    }
    Ok(a)
}

pub fn run(cx: &mut Cx) {
    let n = progs::PROGS.len();
    let mut runner: Option<Runner> = None;
    let mut with = |cx: &mut Cx, f: &mut dyn FnMut(&mut Case, &mut Runner) -> Res| {
        cx.case(|c| {
            if runner.is_none() {
                let d = c.scratch().join("sched");
                std::fs::create_dir_all(&d).unwrap();
                runner = Some(Runner::new(&d));
            }
            let r = f(c, runner.as_mut().unwrap());
            if r.is_err() {
                // (it may be in any state)
                runner = None;
            }
            r
        })
    };
    // alone, first and again
    for p in 0..n {
        with(cx, &mut |c, r| {
            let [a, b] = &r.solo[p];
            c.state(&p);
            c.trace();
            c.count("alone");
            if a.0 != b.0 {
                fail!(json!({"program": progs::PROGS[p].1, "first": a.0, "second": b.0}), "a second compilation gives another result");
            }
            if a.0.starts_with("panic") {
                fail!(json!({"program": progs::PROGS[p].1}), "panic");
            }
            Ok(())
        });
    }
    // (program numbers, cold start, part of the work)
    let mut pairs = |cx: &mut Cx, modes: &[bool], parts: usize, pick: &dyn Fn(usize, usize) -> bool, f: &mut dyn FnMut(&mut Case, &mut Runner, bool, [usize; 2], usize) -> Res| {
        for &cold in modes {
            for a in 0..n {
                for b in 0..n {
                    for part in 0..parts {
                        if pick(a, b) && !cx.done() {
                            with(cx, &mut |c, r| f(c, r, cold, [a, b], part));
                        }
                    }
                }
            }
        }
    };
    let all = |_: usize, _: usize| true;
    let thorough = cx.thorough();
    // one preemption, at the visible operations in conflict with the other thread's
    const PARTS: usize = 12;
    pairs(cx, &[false, true], PARTS, &all, &mut |c, r, cold, ps, part| {
        let base = schedule(c, r, cold, &ps, 0, &[])?;
        // locations used often (reference counts, the parser's caches): quick takes some of them
        let (rare, step) = if thorough { (usize::MAX, 1) } else if cold { (12, 83) } else { (64, 5) };
        let off = (ps[0] * 3 + ps[1]) % step;
        let points: Vec<usize> = if thorough && !cold {
            // and at all others
            (1..=base.points[0][1]).collect()
        } else {
            base.conflicts[0].iter().enumerate().filter(|(i, (_, f))| *f <= rare || i % step == off).map(|(_, (k, _))| *k).collect()
        };
        for k in points.iter().skip(part).step_by(PARTS) {
            schedule(c, r, cold, &ps, 0, &[[1, 0, *k, 1]])?;
        }
        Ok(())
    });
    // two preemptions, there and back (and there again), at conflicts about rarely used locations
    // (the pairs left out by quick: about the state of the process only)
    let few = |a: usize, b: usize| thorough || (a + 2 * b) % 3 == 0;
    pairs(cx, if thorough { &[false, true] } else { &[false] }, PARTS, &all, &mut |c, r, cold, ps, part| {
        let rare = match () {
            _ if !few(ps[0], ps[1]) => 1,
            _ if !thorough || cold => 8,
            _ => 24,
        };
        let rarest = if thorough && !cold { 4 } else { 0 };
        let base = schedule(c, r, cold, &ps, 0, &[])?;
        for (k, _) in base.conflicts[0].iter().filter(|x| x.1 <= rare).skip(part).step_by(PARTS) {
            let s1 = [1, 0, *k, 1];
            let one = schedule(c, r, cold, &ps, 0, &[s1])?;
            for (l, f) in one.conflicts[1].iter().filter(|x| x.1 <= rare) {
                let s2 = [1, 1, *l, 0];
                let two = schedule(c, r, cold, &ps, 0, &[s1, s2])?;
                if *f <= rarest {
                    for (m, _) in two.conflicts[0].iter().filter(|x| x.0 > *k && x.1 <= rarest) {
                        schedule(c, r, cold, &ps, 0, &[s1, s2, [1, 0, *m, 1]])?;
                    }
                }
            }
        }
        Ok(())
    });
    // three compilations
    for d in 0..n {
        pairs(cx, &[false], 1, &|a, b| if thorough { (a + b + d) % 2 == 0 } else { (a + 3 * b + d) % 25 == 0 }, &mut |c, r, cold, [a, b], _| {
            let ps = [a, b, d];
            let rare = if thorough { 8 } else { 6 };
            let base = schedule(c, r, cold, &ps, 0, &[])?;
            for (k, _) in base.conflicts[0].iter().filter(|x| x.1 <= rare) {
                let s1 = [1, 0, *k, 1];
                let one = schedule(c, r, cold, &ps, 0, &[s1])?;
                for (l, _) in one.conflicts[1].iter().filter(|x| x.1 <= rare) {
                    schedule(c, r, cold, &ps, 0, &[s1, [1, 1, *l, 2]])?;
                }
            }
            Ok(())
        });
    }
    // one preemption between any two allocations, for what the instrumentation does not see
    pairs(cx, &[false], 1, &all, &mut |c, r, cold, ps, _| {
        let step = if thorough { 17 } else { 211 };
        let pts = r.solo[ps[0]][1].1;
        for k in (1 + (ps[0] * 7 + ps[1]) % step..=pts).step_by(step) {
            schedule(c, r, cold, &ps, 0, &[[0, 0, k, 1]])?;
        }
        Ok(())
    });
    cx.note("programs", n);
}
