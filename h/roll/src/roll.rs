//! C40 / C41: the real `RollingLogger` on real files with a virtual clock and injected faults.
//!
//! The observable is the log directory. After each operation it is compared to the one before:
//! every file other than the current one must be untouched, and either the current file grew by
//! the accepted bytes, or it became exactly one new file and a new current file holds them.
use std::{
    collections::BTreeMap,
    io::Write,
    path::{Path, PathBuf},
};

use rolling_logger::{RollingLogger, RotateStrategy};
use vmc::{Case, Check};

use crate::os::{Ctl, controlled};

type Dir = BTreeMap<String, Vec<u8>>;
const CUR: &str = "access.log";
const MS: i128 = 1_000_000;
const SEC: i128 = 1000 * MS;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Strat {
    Never,
    Period(usize),
    Size(u64),
}
const PERIODS: [(&str, i128); 6] = [
    ("minutely", 60),
    ("hourly", 3600),
    ("daily", 86400),
    ("weekly", 7 * 86400),
    ("monthly", 30 * 86400),
    ("yearly", 365 * 86400),
];

fn make(s: Strat) -> RotateStrategy {
    match s {
        Strat::Never => RotateStrategy::never(),
        Strat::Size(n) => RotateStrategy::size(n),
        Strat::Period(0) => RotateStrategy::minutely(),
        Strat::Period(1) => RotateStrategy::hourly(),
        Strat::Period(2) => RotateStrategy::daily(),
        Strat::Period(3) => RotateStrategy::weekly(),
        Strat::Period(4) => RotateStrategy::monthly(),
        Strat::Period(_) => RotateStrategy::yearly(),
    }
}

fn scratch() -> PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let d = std::env::temp_dir().join(format!("roll{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn read(dir: &Path) -> Dir {
    std::fs::read_dir(dir)
        .unwrap()
        .map(|e| {
            let e = e.unwrap();
            (e.file_name().into_string().unwrap(), std::fs::read(e.path()).unwrap())
        })
        .collect()
}

struct World {
    dir: PathBuf,
    ctl: Ctl,
    strat: Strat,
    logger: Option<RollingLogger>,
    /// reference: when the running logger started or last rotated
    start: i128,
    files: Dir,
    rec: u8,
    /// archived files in the order they were rotated, then the current one = all accepted bytes
    chain: Vec<u8>,
    archives: Vec<String>,
    exact: bool,
}

impl Drop for World {
    fn drop(&mut self) {
        self.logger = None;
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

impl World {
    fn new(strat: Strat, faults: u32, crashes: u32) -> Self {
        Self {
            dir: scratch(),
            ctl: Ctl {
                case: std::ptr::null_mut(),
                now_ns: 1_700_000_000 * SEC + 123 * MS,
                faults_left: faults,
                crashes_left: crashes,
                crashed: false,
                faulted: false,
                persisted: 0,
                calls: 0,
            },
            strat,
            logger: None,
            start: 0,
            files: Dir::new(),
            rec: b'a',
            chain: Vec::new(),
            archives: Vec::new(),
            exact: true,
        }
    }

    fn cur(&self) -> &[u8] {
        self.files.get(CUR).map_or(&[], |v| v)
    }

    fn open(&mut self, c: &mut Case) {
        self.logger = None;
        self.ctl.crashed = false;
        let path = self.dir.join(CUR);
        let strat = self.strat;
        let r = controlled(&mut self.ctl, c, || RollingLogger::new(&path, make(strat)));
        self.start = self.ctl.now_ns;
        let before = self.files.clone();
        self.files = read(&self.dir);
        let mut expect = before.clone();
        if self.files.contains_key(CUR) {
            expect.entry(CUR.into()).or_default();
        }
        if self.files != expect {
            c.fail("open-changes-files", format!("opening the log changed existing files\n   before {before:?}\n   after {:?}", self.files));
        }
        match r {
            Ok(l) => self.logger = Some(l),
            Err(e) => {
                if !self.ctl.faulted {
                    c.fail("open-fails", format!("logger cannot be created although no fault happened: {e}"));
                }
            }
        }
    }

    /// None when the strategy is unaffected by sizes/clock, else whether the file must rotate now.
    fn due(&self) -> bool {
        match self.strat {
            Strat::Never => false,
            Strat::Size(max) => self.cur().len() as u64 >= max,
            Strat::Period(p) => self.ctl.now_ns - self.start >= PERIODS[p].1 * SEC,
        }
    }

    /// One call of `write`. Returns bytes accepted (None on error).
    fn write_once(&mut self, c: &mut Case, buf: &[u8]) -> Option<std::io::Result<usize>> {
        let mut logger = self.logger.take()?;
        let due = self.due();
        let had_current = self.files.contains_key(CUR);
        let r = controlled(&mut self.ctl, c, || logger.write(buf));
        let (faulted, crashed) = (self.ctl.faulted, self.ctl.crashed);
        self.logger = (!crashed).then_some(logger);
        let accepted = match &r {
            Ok(n) => *n,
            Err(_) => 0,
        };
        let before = std::mem::replace(&mut self.files, read(&self.dir));
        let after = self.files.clone();
        c.steps(1);
        let ctx = |what: &str| {
            format!(
                "{what}: write of {:?} -> {r:?}{}\n   before {}\n   after  {}",
                String::from_utf8_lossy(buf),
                if crashed { " (crash)" } else if faulted { " (fault injected)" } else { "" },
                show(&before),
                show(&after)
            )
        };
        if let Ok(n) = &r
            && (*n > buf.len() || (*n == 0 && !buf.is_empty()))
        {
            c.fail("bad-count", ctx("the reported count is wrong"));
        }
        if r.is_err() && !faulted {
            c.fail("spurious-error", ctx("writing fails although no fault happens"));
        }
        // 1. archives are immutable
        for (n, old) in before.iter().filter(|(n, _)| *n != CUR) {
            // after a rotation that failed between renaming and creating the log, records may still
            // go to the renamed file, which is the end of the log.
            let grown = !had_current && !after.contains_key(CUR) && Some(n) == self.archives.last();
            if grown && after.get(n) == Some(&[&old[..], &buf[..accepted.min(buf.len())]].concat()) {
                self.chain.extend_from_slice(&buf[..accepted]);
                self.check_chain(c);
                return Some(r);
            }
            if after.get(n) != Some(old) {
                c.fail("archive-changed", ctx(&format!("rotated file {n} was changed or removed")));
                return Some(r);
            }
        }
        let new: Vec<&String> = after.keys().filter(|n| *n != CUR && !before.contains_key(*n)).collect();
        let old_cur = before.get(CUR).cloned().unwrap_or_default();
        let new_cur = after.get(CUR).cloned().unwrap_or_default();
        // bytes that reached the file through this call; in a crash a prefix may have.
        let persisted = if crashed { self.ctl.persisted } else { accepted };
        let tail = &buf[..persisted.min(buf.len())];
        if new.len() > 1 {
            c.fail("two-archives", ctx("one write created several rotated files"));
            return Some(r);
        }
        let rotated = new.len() == 1;
        if rotated {
            if after[new[0]] != old_cur {
                c.fail("archive-content", ctx("the rotated file is not the previous log file"));
            }
            self.archives.push(new[0].clone());
            if new_cur != tail {
                c.fail("rotated-current", ctx("the new log file does not hold exactly the accepted bytes"));
            }
            if had_current && !due {
                c.fail("rotated-early", ctx("rotated before it was due"));
            }
            self.start = self.ctl.now_ns;
        } else {
            if !rotated && !after.contains_key(CUR) && had_current {
                c.fail("current-lost", ctx("the log file disappeared"));
            }
            if new_cur != [&old_cur[..], tail].concat() {
                c.fail("current-content", ctx("the log file does not hold the previous and the accepted bytes"));
            }
            if due && had_current && r.is_ok() {
                c.fail("rotated-late", ctx("not rotated although it was due"));
            }
            if !had_current && after.contains_key(CUR) {
                // completes a rotation that failed half way
                self.start = self.ctl.now_ns;
            }
        }
        self.chain.extend_from_slice(tail);
        self.check_chain(c);
        Some(r)
    }

    fn check_chain(&mut self, c: &mut Case) {
        let mut all = Vec::new();
        for a in &self.archives {
            all.extend_from_slice(&self.files[a]);
        }
        all.extend_from_slice(self.cur());
        if all != self.chain {
            c.fail("chain", format!("the log files in order hold {} but {} was accepted",
                String::from_utf8_lossy(&all), String::from_utf8_lossy(&self.chain)));
        }
    }

    /// write_all: like the callers of the logger do.
    fn write_all(&mut self, c: &mut Case, len: usize) {
        let buf = vec![self.rec; len];
        self.rec += 1;
        let mut rest = &buf[..];
        loop {
            match self.write_once(c, rest) {
                None => return,
                Some(Ok(n)) => {
                    rest = &rest[n.min(rest.len())..];
                    if rest.is_empty() {
                        return;
                    }
                    if n == 0 {
                        return;
                    }
                }
                Some(Err(e)) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Some(Err(_)) => return,
            }
            if c.failed() {
                return;
            }
        }
    }
}

fn show(d: &Dir) -> String {
    let v: Vec<String> = d.iter().map(|(n, b)| format!("{n}={:?}", String::from_utf8_lossy(b))).collect();
    v.join(" ")
}

#[derive(Clone, Copy, Debug)]
enum Act {
    Write(usize),
    Advance(i128),
    Restart,
    Flush,
}

fn history(c: &mut Case, w: &mut World, acts: &[Act], depth: usize) {
    w.open(c);
    for _ in 0..depth {
        if c.failed() {
            break;
        }
        if w.logger.is_none() {
            // crashed or failed to open: the process is started again.
            w.open(c);
            continue;
        }
        let a = *c.pick(acts);
        let now = w.ctl.now_ns;
        match a {
            Act::Write(n) => w.write_all(c, n),
            Act::Advance(d) => w.ctl.now_ns += d,
            Act::Restart => w.open(c),
            Act::Flush => {
                let mut l = w.logger.take().unwrap();
                let r = controlled(&mut w.ctl, c, || l.flush());
                w.logger = (!w.ctl.crashed).then_some(l);
                let before = std::mem::replace(&mut w.files, read(&w.dir));
                if before != w.files || (r.is_err() && !w.ctl.faulted) {
                    c.fail("flush", format!("flush {r:?} changed the files {} to {}", show(&before), show(&w.files)));
                }
            }
        }
        let (dir, crashed, files) = (show(&w.files), w.ctl.crashed, w.files.len());
        c.note(|| format!("t={}ms {a:?}{} => {dir}", (now / MS) % 100_000_000, if crashed { " CRASH" } else { "" }));
        c.outcome(&(files, w.archives.len(), w.cur().len(), crashed));
    }
    // once faults cease the logger works again
    if !c.failed() {
        let (f, k) = (w.ctl.faults_left, w.ctl.crashes_left);
        (w.ctl.faults_left, w.ctl.crashes_left) = (0, 0);
        if w.logger.is_none() {
            w.open(c);
        }
        w.write_all(c, 2);
        (w.ctl.faults_left, w.ctl.crashes_left) = (f, k);
        let dir = show(&w.files);
        c.note(|| format!("final write => {dir}"));
    }
    c.check(w.exact, "internal", String::new);
}

pub fn c40(ck: &Check) {
    ck.assume("a crash loses no data already handed to the kernel with write(2) (process crash, not power loss)");
    ck.assume("one logger writes to a path at a time; faults are injected at write, rename and open");
    let thorough = ck.thorough();
    // size rotation: everything happens through writes.
    let depth = if thorough { 6 } else { 5 };
    let (faults, crashes) = if thorough { (2, 1) } else { (1, 1) };
    ck.space("size rotation with faults", |c| {
        let strat = Strat::Size(*c.pick(&[0, 1, 3, 4]));
        let mut w = World::new(strat, faults, crashes);
        c.note(|| format!("{strat:?}"));
        let acts = [Act::Write(3), Act::Write(1), Act::Advance(MS), Act::Restart];
        history(c, &mut w, &acts, depth);
    });
    ck.space("time rotation with faults", |c| {
        let p = c.choose(2);
        let mut w = World::new(Strat::Period(p), faults, crashes);
        c.note(|| PERIODS[p].0.to_string());
        let acts = [Act::Write(3), Act::Advance(PERIODS[p].1 * SEC), Act::Advance(-PERIODS[p].1 * SEC), Act::Restart];
        history(c, &mut w, &acts, depth + 1);
    });
    ck.space("fault free histories", |c| {
        let strat = *c.pick(&[Strat::Never, Strat::Size(1), Strat::Size(2), Strat::Period(0)]);
        let mut w = World::new(strat, 0, 0);
        c.note(|| format!("{strat:?}"));
        let acts = [Act::Write(2), Act::Write(0), Act::Advance(MS), Act::Advance(60 * SEC), Act::Restart, Act::Flush];
        history(c, &mut w, &acts, if thorough { 8 } else { 6 });
    });
}

pub fn c41(ck: &Check) {
    ck.assume("time is the system clock as the logger reads it; it may be stepped backwards");
    let thorough = ck.thorough();
    ck.space("time rotation", |c| {
        let p = c.choose(PERIODS.len());
        let per = PERIODS[p].1 * SEC;
        let mut w = World::new(Strat::Period(p), 0, 0);
        c.note(|| PERIODS[p].0.to_string());
        let acts = [Act::Write(1), Act::Advance(1), Act::Advance(per - 1), Act::Advance(per / 2), Act::Advance(-per / 2), Act::Restart];
        history(c, &mut w, &acts, if thorough { 8 } else { 6 });
    });
    ck.space("size rotation", |c| {
        let n = *c.pick(&[0u64, 1, 2, 3, 5, 7]);
        let mut w = World::new(Strat::Size(n), 1, 0);
        c.note(|| format!("size {n}"));
        let acts = [Act::Write(1), Act::Write(2), Act::Write(4), Act::Advance(MS), Act::Restart];
        history(c, &mut w, &acts, if thorough { 7 } else { 5 });
    });
    ck.space("never", |c| {
        let mut w = World::new(Strat::Never, 0, 0);
        let acts = [Act::Write(1), Act::Write(5), Act::Advance(400 * 86400 * SEC), Act::Advance(MS), Act::Restart];
        history(c, &mut w, &acts, if thorough { 6 } else { 5 });
        if w.files.len() > 1 {
            c.fail("never-rotates", format!("{}", show(&w.files)));
        }
    });
}
