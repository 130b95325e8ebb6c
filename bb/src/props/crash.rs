//! C21: the password tool killed, or failing, at every system call.

use super::conf::{hash, passwd_bin, verify};
use crate::client::Stop;
use crate::proc::scratch_dir;
use crate::report::*;
use crate::util::*;
use serde_json::json;
use std::ffi::CString;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// dies before the call is executed / right after
    KillBefore,
    KillAfter,
    /// the call is not executed and reports this error
    Errno(i32),
    /// the call is executed with a smaller count (read, write)
    Short(usize),
    /// from this call on, all calls that write or change files fail with this error
    AllErrno(i32),
    /// this call fails, and the process dies at the n-th call after it
    ErrnoThenKill(i32, u32),
}

pub struct Run {
    pub calls: Vec<i64>,
    pub status: i32,
    pub hit: bool,
    /// contents seen at any stop that were neither old nor new
    pub bad: Option<String>,
    pub watched: u64,
}

fn errname(e: i32) -> String {
    std::io::Error::from_raw_os_error(e).to_string()
}

const CHANGING: &[i64] = &[
    libc::SYS_write, libc::SYS_writev, libc::SYS_pwrite64, libc::SYS_rename, libc::SYS_renameat, libc::SYS_renameat2, libc::SYS_fsync, libc::SYS_fdatasync,
    libc::SYS_ftruncate, libc::SYS_truncate, libc::SYS_chown, libc::SYS_fchown, libc::SYS_lchown, libc::SYS_fchownat, libc::SYS_chmod, libc::SYS_fchmod, libc::SYS_fchmodat,
    libc::SYS_unlink, libc::SYS_unlinkat, libc::SYS_link, libc::SYS_linkat, libc::SYS_copy_file_range, libc::SYS_sendfile, libc::SYS_fallocate,
];

/// Runs the tool under ptrace with the fault at its k-th system call; `look` is called at every stop.
pub fn traced(args: &[CString], k: usize, fault: Fault, look: &mut dyn FnMut(usize) -> Option<String>) -> Result<Run, Stop> {
    let bad = |m: &str| Stop::Harness(format!("{}: {}", m, std::io::Error::last_os_error()));
    let argv: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).chain([std::ptr::null()]).collect();
    let envp: [*const libc::c_char; 1] = [std::ptr::null()];
    let null = CString::new("/dev/null").unwrap();
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            return Err(bad("fork"));
        }
        if pid == 0 {
            let fd = libc::open(null.as_ptr(), libc::O_RDWR);
            libc::dup2(fd, 0);
            libc::dup2(fd, 1);
            libc::dup2(fd, 2);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
                libc::_exit(99);
            }
            libc::execve(argv[0], argv.as_ptr(), envp.as_ptr());
            libc::_exit(98);
        }
        let mut st = 0;
        if libc::waitpid(pid, &mut st, 0) != pid || !libc::WIFSTOPPED(st) {
            return Err(Stop::Harness(format!("ptrace is not possible here ({})", st)));
        }
        libc::ptrace(libc::PTRACE_SETOPTIONS, pid, 0, libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_EXITKILL);
        let mut r = Run { calls: vec![], status: -1, hit: false, bad: None, watched: 0 };
        let mut inside = false;
        let mut set_result: Option<i64> = None;
        let mut kill_at: Option<usize> = None;
        let mut sig = 0;
        let t = Instant::now();
        loop {
            libc::ptrace(libc::PTRACE_SYSCALL, pid, 0, sig);
            sig = 0;
            if libc::waitpid(pid, &mut st, 0) != pid {
                return Err(bad("waitpid"));
            }
            if libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
                r.status = st;
                return Ok(r);
            }
            let s = libc::WSTOPSIG(st);
            if s != (libc::SIGTRAP | 0x80) {
                sig = s;
                continue;
            }
            if r.bad.is_none() {
                r.bad = look(r.calls.len());
                r.watched += 1;
            }
            let mut regs: libc::user_regs_struct = std::mem::zeroed();
            libc::ptrace(libc::PTRACE_GETREGS, pid, 0, &mut regs);
            let die = |r: Run| {
                libc::kill(pid, libc::SIGKILL);
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
                Ok(Run { status: st, ..r })
            };
            if !inside {
                let nr = regs.orig_rax as i64;
                let n = r.calls.len();
                r.calls.push(nr);
                inside = true;
                if kill_at.map_or(false, |x| n >= x) {
                    return die(r);
                }
                let skip = |regs: &mut libc::user_regs_struct| {
                    regs.orig_rax = u64::MAX;
                    libc::ptrace(libc::PTRACE_SETREGS, pid, 0, regs as *mut _);
                };
                match fault {
                    Fault::KillBefore if n == k => {
                        r.hit = true;
                        return die(r);
                    }
                    Fault::Errno(e) if n == k => {
                        skip(&mut regs);
                        set_result = Some(-(e as i64));
                        r.hit = true;
                    }
                    Fault::ErrnoThenKill(e, after) if n == k => {
                        skip(&mut regs);
                        set_result = Some(-(e as i64));
                        kill_at = Some(n + 1 + after as usize);
                        r.hit = true;
                    }
                    Fault::AllErrno(e) if n >= k && CHANGING.contains(&nr) => {
                        skip(&mut regs);
                        set_result = Some(-(e as i64));
                        r.hit = true;
                    }
                    Fault::Short(cut) if n == k && [libc::SYS_read, libc::SYS_write, libc::SYS_pread64, libc::SYS_pwrite64].contains(&nr) && regs.rdx > 1 => {
                        regs.rdx = (regs.rdx - 1).min(cut as u64);
                        libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &mut regs);
                        r.hit = true;
                    }
                    _ => {}
                }
            } else {
                inside = false;
                if let Some(v) = set_result.take() {
                    regs.rax = v as u64;
                    libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &mut regs);
                }
                if fault == Fault::KillAfter && r.calls.len() == k + 1 {
                    r.hit = true;
                    return die(r);
                }
            }
            if t.elapsed() > Duration::from_secs(60) {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
                return Err(Stop::Unknown("the tool did not end within 60 s".into()));
            }
        }
    }
}

pub fn entries(s: &[u8]) -> Vec<&[u8]> {
    let mut v: Vec<&[u8]> = s.split(|b| *b == b'\n').collect();
    if v.last().map_or(false, |l| l.is_empty()) {
        v.pop();
    }
    v
}

struct Case {
    old: Vec<u8>,
    name: String,
    pw: Option<String>,
}

impl Case {
    fn of<'a>(&self, l: &'a [u8]) -> bool {
        let p = l.iter().position(|b| *b == b':').unwrap_or(l.len());
        &l[..p] == self.name.as_bytes()
    }
    /// old, or completely new?
    fn judge(&self, now: &Result<Vec<u8>, std::io::Error>) -> Result<bool, String> {
        let now = match now {
            Ok(n) => n,
            Err(e) => return Err(format!("the password file cannot be read: {}", e)),
        };
        if *now == self.old {
            return Ok(false);
        }
        let others = |t: &[u8]| -> Vec<Vec<u8>> { entries(t).into_iter().filter(|l| !self.of(l)).map(|l| l.to_vec()).collect() };
        let (a, b) = (others(&self.old), others(now));
        if a != b {
            return Err(format!("of {} other entries ({} bytes in all) {} are left ({} bytes) or they changed", a.len(), self.old.len(), b.len(), now.len()));
        }
        let mine: Vec<Vec<u8>> = entries(now).into_iter().filter(|l| self.of(l)).map(|l| l.to_vec()).collect();
        match &self.pw {
            None if mine.is_empty() => Ok(true),
            None => Err("changed, but the deleted user is still there".into()),
            Some(_) if mine.is_empty() => Err("the entry of the user to be set is gone".into()),
            Some(pw) => {
                for l in mine {
                    let p = l.iter().position(|b| *b == b':').unwrap_or(l.len() - 1);
                    if !verify(&String::from_utf8_lossy(&l[p + 1..]), pw) {
                        return Err(format!("the user's entry is neither old nor new: {}", hex(&l)));
                    }
                }
                Ok(true)
            }
        }
    }
}

struct Place {
    dir: PathBuf,
    /// given to the tool
    arg: PathBuf,
    file: PathBuf,
}

fn place(kind: usize) -> Place {
    let dir = scratch_dir("crash");
    match kind {
        1 => {
            std::fs::create_dir(dir.join("real")).unwrap();
            let file = dir.join("real/passwd");
            std::os::unix::fs::symlink("real/passwd", dir.join("link")).unwrap();
            Place { arg: dir.join("link"), file, dir }
        }
        _ => {
            let file = dir.join("passwd");
            Place { arg: file.clone(), file, dir }
        }
    }
}

impl Drop for Place {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn argv(arg: &Path, c: &Case) -> Vec<CString> {
    let mut v = vec![passwd_bin(), "-f".into(), arg.to_str().unwrap().to_string(), format!("--user={}", c.name)];
    match &c.pw {
        Some(p) => v.push(format!("--password={}", p)),
        None => v.push("-d".into()),
    }
    v.into_iter().map(|s| CString::new(s).unwrap()).collect()
}

pub fn c21() -> Report {
    let r = Report::new(
        "C21",
        "every system call of an update by the real tool as a point of death (before and after the call) and of failure (several errors, persistent failure, short reads and writes, a failure followed by death), for set and delete, existing and new users, one entry to thousands, through symbolic links; plus file size limits and concurrent readers; an evaluation is one faulted run; distinct: by (case, fault, call)",
    );
    let secs = budget(25.0, 700.0);
    let tb = TimeBox::secs(secs);
    let mut rng = Rng::new(r.seed);
    let mut ncase = 0u64;
    while ncase == 0 || (!tb.over() && !r.stopped() && ncase < 400) {
        one_case(&r, ncase, &mut rng, &tb);
        ncase += 1;
        if r.inner.lock().unwrap().inconclusive.len() > 5 {
            break;
        }
    }
    if !r.stopped() {
        limits(&r, &mut rng);
        readers(&r, &mut rng);
    }
    r
}

/// a hash of the length of those of the tool
fn tool_hash(password: &str) -> String {
    use argon2::password_hash::{PasswordHasher, SaltString};
    let s = SaltString::b64_encode(b"0123456789abcdef").unwrap();
    argon2::Argon2::default().hash_password(password.as_bytes(), &s).unwrap().to_string()
}

fn make_case(rng: &mut Rng, n: u64) -> (Case, usize) {
    let entries = match n % 6 {
        0 => 3,
        1 => 300,
        2 => 0,
        3 => 1,
        4 => 20,
        _ => {
            if thorough() {
                40000
            } else {
                4000
            }
        }
    };
    // mostly as long as what the tool writes
    let h = if n % 4 == 2 { hash("p", 0, 5) } else { tool_hash("p") };
    let mut old = String::new();
    for k in 0..entries {
        old.push_str(&format!("user{}:{}\n", k, h));
    }
    if n % 4 == 1 && !old.is_empty() {
        old.pop();
    }
    let exists = entries > 0 && n % 3 != 1;
    let name = if exists { format!("user{}", rng.below(entries)) } else { "somebody".to_string() };
    let del = n % 5 == 3;
    let pw = if del { None } else { Some(format!("new-{}", rng.below(1000))) };
    (Case { old: old.into_bytes(), name, pw }, if n % 3 == 2 { 1 } else { 0 })
}

fn one_case(r: &Report, n: u64, rng: &mut Rng, tb: &TimeBox) {
    let (case, pk) = make_case(rng, n);
    let desc = format!("case {}: {} {:?} in a file of {} bytes{}", n, if case.pw.is_some() { "set" } else { "delete" }, case.name, case.old.len(), if pk == 1 { " behind a symbolic link" } else { "" });
    // undisturbed, watching the file at every stop
    let base = run(&case, pk, usize::MAX, Fault::None);
    let base = match base {
        Ok((b, v)) => {
            if let Err(m) = v {
                return r.violation("undisturbed", format!("{}: {}", desc, m), json!({"case": n}));
            }
            b
        }
        Err(s) => return r.stop_to("crash", s, json!({"case": n})),
    };
    let nc = base.calls.len();
    r.max("system calls of the longest update", nc as u64);
    if n == 0 {
        r.sample(json!({"case": desc, "system calls": nc}));
    }
    let mut todo: Vec<(usize, Fault)> = vec![];
    let errs = [libc::EIO, libc::ENOSPC, libc::EINTR, libc::EACCES, libc::ENOENT, libc::EMFILE, libc::EDQUOT, libc::EBADF, libc::EXDEV, libc::EPERM, libc::EROFS];
    for k in 0..nc {
        todo.push((k, Fault::KillBefore));
        todo.push((k, Fault::KillAfter));
        let m = if n < 3 { errs.len() } else { 3 };
        for j in 0..m {
            todo.push((k, Fault::Errno(if n < 3 { errs[j] } else { *rng.pick(&errs) })));
        }
        if [libc::SYS_read, libc::SYS_write, libc::SYS_pread64].contains(&base.calls[k]) {
            // at the start, in and behind the user's entry, near the end
            let len = case.old.len().max(2);
            let at = case.old.windows(case.name.len() + 1).position(|w| w[..case.name.len()] == *case.name.as_bytes() && w[case.name.len()] == b':').unwrap_or(len / 2);
            for cut in [7, len / 2, at + case.name.len() + 40, at + 101, at + 130, len - 1] {
                todo.push((k, Fault::Short(cut.min(len - 1).max(1))));
            }
        }
        if CHANGING.contains(&base.calls[k]) {
            todo.push((k, Fault::AllErrno(libc::ENOSPC)));
            todo.push((k, Fault::AllErrno(libc::EIO)));
            for d in 0..if n < 3 || thorough() { 8 } else { 2 } {
                todo.push((k, Fault::ErrnoThenKill(*rng.pick(&errs), d)));
            }
        }
    }
    rng.shuffle(&mut todo);
    let next = AtomicU64::new(0);
    let complete = AtomicBool::new(true);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst) as usize;
                if i >= todo.len() || r.stopped() {
                    return;
                }
                if n > 1 && tb.over() {
                    complete.store(false, Ordering::SeqCst);
                    return;
                }
                let (k, f) = todo[i];
                let call = format!("{:?} at system call {} of {} (number {})", f, k, nc, base.calls[k]);
                match run(&case, pk, k, f) {
                    Ok((run, v)) => {
                        if run.hit {
                            r.eval(mix64(n ^ hash_bytes(k as u64, format!("{:?}", f).as_bytes())));
                            let name = match f {
                                Fault::KillBefore | Fault::KillAfter => "deaths",
                                Fault::Short(_) => "short reads and writes",
                                Fault::ErrnoThenKill(..) => "failures followed by death",
                                _ => "failures",
                            };
                            r.count(name, 1);
                        }
                        r.count("observations of the file", run.watched);
                        match v {
                            Err(m) => r.violation("lost", format!("{}: {}: {}", desc, call, m), json!({"case": n, "call": k, "fault": format!("{:?}", f)})),
                            Ok(true) => r.count("faulted runs that left the new contents", 1),
                            Ok(false) => r.count("faulted runs that left the old contents", 1),
                        }
                    }
                    Err(s) => r.stop_to("crash", s, json!({"case": n})),
                }
            });
        }
    });
    if complete.load(Ordering::SeqCst) {
        r.count("cases with every call and every listed fault tried", 1);
    }
}

fn run(case: &Case, pk: usize, k: usize, f: Fault) -> Result<(Run, Result<bool, String>), Stop> {
    let p = place(pk);
    std::fs::write(&p.file, &case.old).map_err(|e| Stop::Harness(e.to_string()))?;
    std::fs::set_permissions(&p.file, std::fs::Permissions::from_mode(0o640)).unwrap();
    let args = argv(&p.arg, case);
    // whoever reads the file meanwhile, for instance a broker being started, sees old or new
    // (time stamps are too coarse to tell whether it changed)
    let mut last: Option<Vec<u8>> = None;
    let mut look = |_n: usize| {
        let now = std::fs::read(&p.arg);
        if now.is_ok() && now.as_ref().ok() == last.as_ref() {
            return None;
        }
        let v = case.judge(&now).err();
        last = now.ok();
        v
    };
    let r = traced(&args, k, f, &mut look)?;
    if libc::WIFEXITED(r.status) && libc::WEXITSTATUS(r.status) >= 98 && libc::WEXITSTATUS(r.status) <= 99 && r.calls.len() < 3 {
        return Err(Stop::Harness("the tool could not be started under ptrace".into()));
    }
    let mut v = case.judge(&std::fs::read(&p.arg));
    if let (Ok(_), Some(b)) = (&v, &r.bad) {
        v = Err(format!("during the update: {}", b));
    }
    if f == Fault::None && v == Ok(false) && !(case.pw.is_none() && !entries(&case.old).iter().any(|l| case.of(l))) {
        v = Err(format!("an undisturbed update changed nothing (status {})", r.status));
    }
    // the next, undisturbed update neither loses anything
    if v.is_ok() && f != Fault::None && r.hit && k % 3 == 0 {
        let now = Case { old: std::fs::read(&p.arg).unwrap(), name: case.name.clone(), pw: case.pw.clone() };
        let again = std::process::Command::new(passwd_bin())
            .args(args[1..].iter().map(|a| a.to_str().unwrap()))
            .env_clear()
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        if again.is_ok() {
            v = now.judge(&std::fs::read(&p.arg)).map_err(|m| format!("after one more, undisturbed update: {}", m));
        }
    }
    Ok((r, v))
}

/// the file may not grow beyond a limit: a full disk, without ptrace
fn limits(r: &Report, rng: &mut Rng) {
    use std::os::unix::process::CommandExt;
    for n in 0..40u64 {
        let (case, pk) = make_case(rng, n);
        let p = place(pk);
        std::fs::write(&p.file, &case.old).unwrap();
        let limit = match n % 4 {
            0 => 0,
            1 => 1,
            2 => case.old.len() as u64 / 2,
            _ => (case.old.len() as u64).saturating_sub(1),
        };
        let mut c = std::process::Command::new(passwd_bin());
        c.args(argv(&p.arg, &case)[1..].iter().map(|a| a.to_str().unwrap())).env_clear();
        c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        let ign = n % 2 == 0;
        unsafe {
            c.pre_exec(move || {
                let l = libc::rlimit { rlim_cur: limit, rlim_max: limit };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                if ign {
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                }
                Ok(())
            });
        }
        let st = match c.status() {
            Ok(s) => s,
            Err(e) => return r.inconclusive(format!("limits: {}", e)),
        };
        r.eval(mix64(n ^ 0xf512e));
        r.count("runs against a file size limit", 1);
        if let Err(m) = case.judge(&std::fs::read(&p.arg)) {
            r.violation("limit", format!("files limited to {} bytes, tool ended with {:?}: {}", limit, st, m), json!({"case": n}));
        }
    }
}

/// readers polling while updates follow each other
fn readers(r: &Report, rng: &mut Rng) {
    let (case, pk) = make_case(rng, 5);
    let p = place(pk);
    std::fs::write(&p.file, &case.old).unwrap();
    let others: Vec<Vec<u8>> = entries(&case.old).into_iter().filter(|l| !case.of(l)).map(|l| l.to_vec()).collect();
    let stop = AtomicBool::new(false);
    let seen = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..3 {
            s.spawn(|| {
                while !stop.load(Ordering::SeqCst) {
                    let now = match std::fs::read(&p.arg) {
                        Ok(n) => n,
                        Err(e) => {
                            r.violation("reader", format!("while the tool runs the password file cannot be read: {}", e), json!({}));
                            return;
                        }
                    };
                    seen.fetch_add(1, Ordering::SeqCst);
                    let o: Vec<&[u8]> = entries(&now).into_iter().filter(|l| !case.of(l)).collect();
                    if o.len() != others.len() || o.iter().zip(&others).any(|(a, b)| *a != &b[..]) {
                        r.violation("reader", format!("while the tool runs a reader finds {} of {} other entries", o.len(), others.len()), json!({}));
                        return;
                    }
                }
            });
        }
        for k in 0..40 {
            let c = Case { old: vec![], name: case.name.clone(), pw: if k % 5 == 4 { None } else { Some(format!("x{}", k)) } };
            let _ = std::process::Command::new(passwd_bin())
                .args(argv(&p.arg, &c)[1..].iter().map(|a| a.to_str().unwrap()))
                .env_clear()
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status();
        }
        stop.store(true, Ordering::SeqCst);
    });
    r.count("concurrent reads of the file", seen.load(Ordering::SeqCst));
}
