//! The command line tool, run on real files and pipes.

use crate::core::*;
use crate::jobs::*;
use crate::spaces::Ctx;
use crate::work::Ctl;
use std::io::Write;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::OpenOptionsExt;
use std::os::unix::io::AsRawFd;
use std::sync::atomic::Ordering::SeqCst;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

pub fn binary() -> String {
    format!("{}/target/cli/release/jsparse", crate::root())
}
fn shim() -> String {
    format!("{}/target/fault.so", crate::root())
}
fn scratch() -> String {
    let d = format!("{}/work/cli-{}", crate::root(), std::process::id());
    let _ = std::fs::create_dir_all(&d);
    d
}

#[derive(Clone)]
pub enum Arrive {
    /// a regular file
    File,
    /// a pipe, written in pieces cut at these offsets
    Pipe(Vec<usize>),
    Missing,
    Dir,
    NoArg,
    /// a regular file with this name, given in this way
    Named(&'static [u8], Way),
    /// a regular file whose reads are served as the letters say (shim/fault.c)
    Faulty(String),
    /// a file that cannot be opened, with this errno
    Closed(i32),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Way {
    Absolute,
    /// relative to the working directory
    Relative,
    /// through a symbolic link of this name
    Link,
    /// a file nobody may write
    ReadOnly,
    /// with more arguments behind it
    Extra,
    /// a dangling symbolic link
    Dangling,
}
pub struct Case {
    pub bytes: Vec<u8>,
    pub how: Arrive,
}
pub struct Cli {
    pub what: &'static str,
    pub cases: Vec<Case>,
}

/// every name below `dir` with what it holds
fn listing(dir: &str) -> Vec<(std::path::PathBuf, Vec<u8>)> {
    let mut v = vec![];
    let mut todo = vec![std::path::PathBuf::from(dir)];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                todo.push(p.clone());
                v.push((p, vec![]));
            } else {
                let b = std::fs::read(&p).unwrap_or_default();
                v.push((p, b));
            }
        }
    }
    v.sort();
    v
}

/// exit status: success, failure, or killed
fn run(dir: &str, c: &Case) -> Result<bool, String> {
    let path = format!("{}/in.js", dir);
    let _ = std::fs::remove_file(&path);
    let mut cmd = Command::new(binary());
    cmd.env_remove("RUST_BACKTRACE").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    let mut writer = None;
    let mut before = vec![];
    let over = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    match &c.how {
        Arrive::File => {
            std::fs::write(&path, &c.bytes).map_err(|e| e.to_string())?;
            cmd.arg(&path);
        }
        Arrive::Pipe(cuts) => {
            let p = std::ffi::CString::new(path.clone()).unwrap();
            if unsafe { libc::mkfifo(p.as_ptr(), 0o600) } != 0 {
                return Err("mkfifo".into());
            }
            cmd.arg(&path);
            let (bytes, cuts, path) = (c.bytes.clone(), cuts.clone(), path.clone());
            let over = over.clone();
            writer = Some(std::thread::spawn(move || {
                // opens once the reader has opened its end
                let mut f = loop {
                    match std::fs::OpenOptions::new().write(true).custom_flags(libc::O_NONBLOCK).open(&path) {
                        Ok(f) => break f,
                        Err(_) if over.load(SeqCst) => return,
                        Err(_) => std::thread::sleep(std::time::Duration::from_micros(50)),
                    }
                };
                unsafe { libc::fcntl(f.as_raw_fd(), libc::F_SETFL, 0) };
                let mut last = 0;
                for c in cuts.iter().cloned().chain(Some(bytes.len())) {
                    let _ = f.write_all(&bytes[last..c]);
                    last = c;
                    // until the reader has taken the piece
                    loop {
                        let mut n: libc::c_int = 0;
                        unsafe { libc::ioctl(f.as_raw_fd(), libc::FIONREAD, &mut n) };
                        if n == 0 || over.load(SeqCst) {
                            break;
                        }
                        std::thread::sleep(std::time::Duration::from_micros(50));
                    }
                }
            }));
        }
        Arrive::Faulty(_) | Arrive::Closed(_) => {
            std::fs::write(&path, &c.bytes).map_err(|e| e.to_string())?;
            let _ = std::fs::remove_file(format!("{}/log", dir));
            cmd.arg(&path);
            cmd.env("LD_PRELOAD", shim()).env("MCF_PATH", &path).env("MCF_LOG", format!("{}/log", dir));
            match &c.how {
                Arrive::Faulty(s) => cmd.env("MCF_READ", s),
                Arrive::Closed(e) => cmd.env("MCF_OPEN", e.to_string()),
                _ => unreachable!(),
            };
        }
        Arrive::Missing => {
            cmd.arg(format!("{}/missing.js", dir));
        }
        Arrive::Dir => {
            cmd.arg(dir);
        }
        Arrive::NoArg => {}
        Arrive::Named(name, way) => {
            let dir = format!("{}/named", dir);
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
            let p = std::path::Path::new(&dir).join(std::ffi::OsStr::from_bytes(name));
            if let Some(d) = p.parent() {
                std::fs::create_dir_all(d).map_err(|e| e.to_string())?;
            }
            match way {
                Way::Link | Way::Dangling => {
                    let t = format!("{}/target-of-link", dir);
                    if *way == Way::Link {
                        std::fs::write(&t, &c.bytes).map_err(|e| e.to_string())?;
                    }
                    std::os::unix::fs::symlink(&t, &p).map_err(|e| e.to_string())?;
                }
                _ => std::fs::write(&p, &c.bytes).map_err(|e| e.to_string())?,
            }
            if *way == Way::ReadOnly {
                let _ = std::fs::set_permissions(&p, std::os::unix::fs::PermissionsExt::from_mode(0o444));
            }
            cmd.current_dir(&dir);
            match way {
                Way::Relative => cmd.arg(std::ffi::OsStr::from_bytes(name)),
                _ => cmd.arg(&p),
            };
            if *way == Way::Extra {
                cmd.arg("other.js").arg("--help");
            }
            before = listing(&dir);
        }
    }
    let st = cmd.status().map_err(|e| e.to_string());
    over.store(true, SeqCst);
    if let Some(w) = writer {
        let _ = w.join();
    }
    let st = st?;
    if let Arrive::File | Arrive::Faulty(_) = c.how {
        if std::fs::read(&path).ok().as_deref() != Some(&c.bytes[..]) {
            return Err("changed: the file was modified".into());
        }
    }
    if let Arrive::Named(..) = c.how {
        if listing(&format!("{}/named", dir)) != before {
            return Err("changed: files were created, removed or modified".into());
        }
    }
    if let Some(s) = st.signal() {
        return Err(format!("killed by signal {}", s));
    }
    Ok(st.success())
}

impl Job for Cli {
    fn desc(&self) -> String {
        format!("command line tool: {} runs: {}", self.cases.len(), self.what)
    }
    fn units(&self) -> u64 {
        (self.cases.len() as u64 + 31) / 32
    }
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St) {
        let dir = scratch();
        for c in self.cases.iter().skip(u as usize * 32).take(32) {
            let me = ctl.me();
            Ctl::add(&me.states, 1);
            Ctl::add(&me.runs, 1);
            let cuts = match &c.how {
                Arrive::Pipe(c) => c.len(),
                Arrive::Faulty(s) => s.len(),
                _ => 0,
            };
            Ctl::add(&me.transitions, 1 + cuts as u64);
            let text = std::str::from_utf8(&c.bytes).ok();
            let shown = match text {
                Some(t) => t.to_string(),
                None => format!("bytes {:?}", c.bytes),
            };
            let how = match &c.how {
                Arrive::File => "as a file".to_string(),
                Arrive::Pipe(c) => format!("through a pipe cut at {:?}", c),
                Arrive::Missing => "from a missing file".into(),
                Arrive::Dir => "from a directory".into(),
                Arrive::NoArg => "without an argument".into(),
                Arrive::Named(n, w) => format!("from {:?}, {:?}", String::from_utf8_lossy(n), w),
                Arrive::Faulty(s) => format!("with its reads served as {:?}", s),
                Arrive::Closed(e) => format!("with errno {} when opened", e),
            };
            ctl.sample(&shown);
            let want = match (&c.how, text) {
                (Arrive::Named(_, Way::Dangling), _) => Tri::Rej,
                (Arrive::File, Some(t)) | (Arrive::Pipe(_), Some(t)) | (Arrive::Named(..), Some(t)) | (Arrive::Faulty(_), Some(t)) => {
                    let s = st.pw.strict(t);
                    if s == Tri::Rej {
                        // what only the cover grammar accepts stays open
                        if st.pw.lenient(t) == Tri::Rej {
                            Tri::Rej
                        } else {
                            Tri::Open
                        }
                    } else {
                        match st.pw.deletes(t) {
                            Tri::Acc => s,
                            x => x,
                        }
                    }
                }
                _ => Tri::Rej,
            };
            ctl.enter(&shown);
            let got = run(&dir, c);
            ctl.leave();
            // a failure the tool has seen must not end in success, one it has not seen cannot
            let failed = matches!(c.how, Arrive::Faulty(_) | Arrive::Closed(_)) && std::path::Path::new(&format!("{}/log", dir)).exists();
            let want = if failed { Tri::Rej } else { want };
            if let (Arrive::Closed(_), false) = (&c.how, failed) {
                continue;
            }
            match (want, got) {
                (_, Err(e)) if e.starts_with("killed") || e.starts_with("changed") => ctl.violation(&shown, &format!("read {}: {}", how, e)),
                (_, Err(e)) => panic!("cannot run the tool: {}", e),
                (Tri::Acc, Ok(false)) => ctl.violation(&shown, &format!("read {}: valid module, but the tool fails", how)),
                (Tri::Rej, Ok(true)) => ctl.violation(&shown, &format!("read {}: must fail, but the tool succeeds", how)),
                (Tri::Open, Ok(_)) => Ctl::add(&me.open, 1),
                (Tri::Acc, _) => Ctl::add(&me.accepted, 1),
                _ => Ctl::add(&me.rejected, 1),
            }
            if ctl.stopped() {
                break;
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
}

pub fn jobs(cx: &mut Ctx) -> Vec<Box<dyn Job>> {
    let t = cx.thorough;
    let k = cx.k;
    let (a, p) = cx.corpus();
    let file = |s: String| Case { bytes: s.into_bytes(), how: Arrive::File };
    let mut j: Vec<Box<dyn Job>> = vec![];
    let mut c: Vec<Case> = a.iter().map(|x| file(k.render(x))).collect();
    if t {
        c.extend(p.iter().map(|x| file(k.render(x))));
    }
    for x in a.iter() {
        for i in 1..x.len() {
            c.push(file(k.render(&x[..i])));
            if t {
                c.push(file(k.render(&x[i..])));
            }
        }
    }
    j.push(Box::new(Cli { what: "the corpus and its prefixes as files", cases: c }));
    // all ways of arriving
    let texts = ["a = 1;", "a b", "", "\u{feff}a;\r\n", "'\u{e9}\u{1F600}' + `\u{4e2d}${ a }`;\n", "if (a) { b } }", "var \u{e9} = /[\u{1F600}]/g;", "\n\n// \u{2028}\nexport {};", "a;\n'", "(a)\n\u{1F600}"];
    let mut c = vec![];
    for x in texts {
        let b = x.as_bytes().to_vec();
        c.push(Case { bytes: b.clone(), how: Arrive::File });
        c.push(Case { bytes: b.clone(), how: Arrive::Pipe(vec![]) });
        for i in 1..b.len() {
            c.push(Case { bytes: b.clone(), how: Arrive::Pipe(vec![i]) });
            for l in i + 1..b.len() {
                if t || b.len() <= 28 {
                    c.push(Case { bytes: b.clone(), how: Arrive::Pipe(vec![i, l]) });
                }
            }
        }
        if !b.is_empty() {
            c.push(Case { bytes: b.clone(), how: Arrive::Pipe((1..b.len()).collect()) });
        }
    }
    j.push(Box::new(Cli { what: "every way of cutting short texts into reads", cases: c }));
    // every kind of name
    let names: [&'static [u8]; 22] = [
        b"a.js", b"a", b"-", b"-x.js", b"--help", b"--", b"a b.js", b" ", b"a\nb.js", b"\xc3\xa9.js", b"\xff", b"a\xff.js", b"\xed\xa0\x80.js", b"\xe4\xb8.js", b"a'b\".js", b"$HOME", b"*", b"\\", b"a;b", b"sub/a.js", b"sub/\xff/a.js", b"a.mjs",
    ];
    let mut c = vec![];
    for n in names {
        for w in [Way::Absolute, Way::Relative, Way::Link, Way::ReadOnly, Way::Extra, Way::Dangling] {
            for x in ["a = 1;", "a b", "", "'"] {
                c.push(Case { bytes: x.as_bytes().to_vec(), how: Arrive::Named(n, w) });
            }
        }
    }
    j.push(Box::new(Cli { what: "every kind of file name and of giving it", cases: c }));
    // every way the reads can go
    let mut c = vec![];
    for x in ["a = 1;", "", "a b", "a;\n'", "'\u{1F600}';\n'\u{e9}'", "a;\n)"] {
        let big = x == "a;\n)" || x == "a = 1;";
        for size in if big { vec![0, 8190, 70000] } else { vec![0] } {
            let mut s = "a=1;\n".repeat(size / 5);
            s.push_str(x);
            for n in 1..=if t { 6 } else { 4 } {
                for mut i in 0..4u32.pow(n) {
                    let mut w = String::new();
                    for _ in 0..n {
                        w.push(b"n1he"[(i % 4) as usize] as char);
                        i /= 4;
                    }
                    // nothing after an error matters
                    if w.ends_with('n') || w.find('e').map_or(false, |p| p + 1 < w.len()) {
                        continue;
                    }
                    c.push(Case { bytes: s.clone().into_bytes(), how: Arrive::Faulty(w) });
                }
            }
            for e in [libc::EACCES, libc::EMFILE, libc::ENFILE, libc::EIO, libc::ELOOP, libc::ENOMEM, libc::ENOENT, libc::ENXIO] {
                c.push(Case { bytes: s.clone().into_bytes(), how: Arrive::Closed(e) });
            }
        }
    }
    j.push(Box::new(Cli { what: "every sequence of short reads and I/O errors", cases: c }));
    // not UTF-8
    let mut c = vec![];
    for x in ["a;", "'\u{e9}';\n//\u{1F600}", "a\n"] {
        let b = x.as_bytes();
        for i in 0..=b.len() {
            for bad in [&[0x80u8][..], &[0xc0, 0xaf], &[0xff], &[0xc3], &[0xf0, 0x9f, 0x98], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xe9], &[0xfe, 0xff]] {
                let mut y = b[..i].to_vec();
                y.extend(bad);
                y.extend(&b[i..]);
                if std::str::from_utf8(&y).is_err() {
                    c.push(Case { bytes: y.clone(), how: Arrive::File });
                    if t {
                        c.push(Case { bytes: y, how: Arrive::Pipe(vec![i]) });
                    }
                }
            }
        }
        for i in 1..b.len() {
            if std::str::from_utf8(&b[..i]).is_err() {
                c.push(Case { bytes: b[..i].to_vec(), how: Arrive::File });
            }
        }
    }
    for b in 0x80..=0xffu8 {
        c.push(Case { bytes: vec![b], how: Arrive::File });
        c.push(Case { bytes: vec![b'a', b';', b'\n', b], how: Arrive::File });
        c.push(Case { bytes: vec![b'/', b'/', b, b'\n'], how: Arrive::File });
    }
    c.push(Case { bytes: vec![], how: Arrive::Missing });
    c.push(Case { bytes: vec![], how: Arrive::Dir });
    c.push(Case { bytes: vec![], how: Arrive::NoArg });
    j.push(Box::new(Cli { what: "bytes that are not UTF-8 at every place; no file", cases: c }));
    // big files: what is wrong comes last, or first
    let mut c = vec![];
    for n in [1usize, 100, 1000, 4095 / 5, 4096 / 5 + 1, 8192 / 5, 65536 / 5, 65536 / 5 + 1, 40000] {
        for (a, z) in [("", ""), ("", ")"), (")", ""), ("", "'"), ("", "/*"), ("// ", ""), ("", "a\n"), ("", "a b"), ("", "`"), ("", "\u{1F600}")] {
            let mut s = String::from(a);
            for _ in 0..n {
                s.push_str("a=1;\n");
            }
            s.push_str(z);
            c.push(Case { bytes: s.clone().into_bytes(), how: Arrive::File });
            if n <= 65536 / 5 + 1 {
                let cut = s.len() / 2;
                c.push(Case { bytes: s.into_bytes(), how: Arrive::Pipe(vec![cut]) });
            }
        }
    }
    // a character across each read boundary
    for pad in (4090..4100).chain(8186..8196).chain(65530..65540) {
        let s = format!("/*{}*/'\u{1F600}\u{e9}'", "x".repeat(pad));
        c.push(Case { bytes: s.clone().into_bytes(), how: Arrive::File });
        c.push(Case { bytes: s.into_bytes(), how: Arrive::Pipe(vec![pad + 4]) });
    }
    j.push(Box::new(Cli { what: "large files", cases: c }));
    // far beyond any limit one might put on the size of a file
    let mut c = vec![];
    for n in [1usize << 19, 1 << 20, 10_000_000, 1 << 24, (1 << 24) + 1, 1 << 25] {
        for z in ["", ")"] {
            let s = format!("a;\n/*{}*/\nb\n{}", "x".repeat(n), z);
            c.push(Case { bytes: s.into_bytes(), how: Arrive::File });
        }
    }
    for z in ["", ")", "/*"] {
        c.push(Case { bytes: ("a=1;\n".repeat(210_000) + z).into_bytes(), how: Arrive::File });
    }
    j.push(Box::new(Cli { what: "very large files", cases: c }));
    j
}
