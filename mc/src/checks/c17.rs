//! C17: encoders created for a path, on a file system that fills up at every byte.

use super::*;
use std::path::{Path, PathBuf};

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(r: i32, l: *const RLimit) -> i32;
    fn getrlimit(r: i32, l: *mut RLimit) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
    fn geteuid() -> u32;
    fn getegid() -> u32;
    fn seteuid(u: u32) -> i32;
    fn setegid(g: u32) -> i32;
    fn chown(path: *const std::os::raw::c_char, u: u32, g: u32) -> i32;
    fn getgroups(n: i32, list: *mut u32) -> i32;
    fn setgroups(n: usize, list: *const u32) -> i32;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;

/// The code under test creates, and if it is wrong perhaps removes or overwrites, files.  It runs as
/// an unprivileged user who owns nothing but the scratch directory, so that whatever it does to
/// other paths (devices, directories, the target of a link) is refused by the kernel.
const NOBODY: u32 = 65534;
struct Unprivileged(Option<(u32, u32, Vec<u32>)>);
impl Unprivileged {
    fn enter() -> Unprivileged {
        unsafe {
            let (u, g) = (geteuid(), getegid());
            if u != 0 {
                return Unprivileged(None);
            }
            let mut groups = vec![0u32; getgroups(0, std::ptr::null_mut()).max(0) as usize];
            let n = getgroups(groups.len() as i32, groups.as_mut_ptr());
            groups.truncate(n.max(0) as usize);
            // where groups cannot be changed (user namespaces) the process has none that matter
            let _ = setgroups(0, std::ptr::null());
            if setegid(NOBODY) != 0 || seteuid(NOBODY) != 0 {
                panic!("harness: privileges cannot be dropped");
            }
            assert!(geteuid() == NOBODY && getegid() == NOBODY, "harness: privileges were not dropped");
            Unprivileged(Some((u, g, groups)))
        }
    }
}
impl Drop for Unprivileged {
    fn drop(&mut self) {
        if let Some((u, g, groups)) = &self.0 {
            unsafe {
                if seteuid(*u) != 0 || setegid(*g) != 0 {
                    eprintln!("harness: privileges cannot be restored");
                    std::process::exit(2);
                }
                let _ = setgroups(groups.len(), groups.as_ptr());
            }
        }
    }
}

/// Scratch directory owned by the unprivileged user, removed on drop.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let base = std::env::temp_dir();
        for i in 0..1000 {
            let p = base.join(format!("mc-c17-{}-{}", std::process::id(), i));
            if std::fs::create_dir(&p).is_ok() {
                let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
                unsafe {
                    if geteuid() == 0 && chown(c.as_ptr(), NOBODY, NOBODY) != 0 {
                        panic!("harness: the scratch directory cannot be given away");
                    }
                }
                return Scratch(p);
            }
        }
        panic!("harness: no scratch directory");
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// what the path is before the call
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Pre {
    Absent,
    /// an existing file of this many bytes more than the stream
    Longer(usize),
    Shorter,
    Missing,
    Directory,
    Empty,
    /// the path is a symbolic (hard) link to an existing file: that file is the one to truncate
    Symlink,
    HardLink,
    /// existing file whose leading bytes equal the stream
    SamePrefix,
    /// a symbolic link to a file that does not exist yet
    Dangling,
    /// a symbolic link to itself
    Loop,
    /// names: not UTF-8; blanks, line feeds and quotes; as long as allowed; one byte longer
    NonUtf8,
    Odd,
    Long,
    TooLong,
    /// a path relative to the current directory; through a subdirectory and back
    Relative,
    Parent,
    /// ends in a slash; contains a zero byte
    Slash,
    Nul,
    /// an existing file that may not be written
    ReadOnly,
    /// the directory may not be written: no file there, or an existing file that may be written
    Sealed,
    SealedOver,
    /// an existing file with unusual permission bits
    Mode,
    /// no file descriptor left
    NoFds,
    /// a name that means something to some programs, relative to the current directory
    Name(u8),
}
const NAMES: [&str; 40] = [
    "-", "--", "-o", "~", "~/x", "~root", "file:x", "file://x", "file:///x", "http://x", "$HOME", "${x}", "%78", "%s", "a*b", "?", "[x]", "{a,b}", "con", "nul",
    "x.jpg.gz", "x.png", "x.tmp", "x", ".x", "...", "x ", " x", "x.", "X", "./x", ".//./x", "|x", ">x", "x:y", "x\\y", "c:\\x", "e\u{301}", "\u{e9}", "x\u{feff}",
];
/// Files that are there already when the name is one of `NAMES`.
const SIBLINGS: [&str; 12] = ["x", "x.jpg", "X.JPG", "a", "b", "ab", "y", "x.tmp~", "out.jpg", "\u{e9}.", "a b", "root"];
const PRES: [Pre; 25] = [
    Pre::Absent,
    Pre::Longer(1),
    Pre::Longer(20000),
    Pre::Shorter,
    Pre::Missing,
    Pre::Directory,
    Pre::Empty,
    Pre::Symlink,
    Pre::HardLink,
    Pre::SamePrefix,
    Pre::Dangling,
    Pre::Loop,
    Pre::NonUtf8,
    Pre::Odd,
    Pre::Long,
    Pre::TooLong,
    Pre::Relative,
    Pre::Parent,
    Pre::Slash,
    Pre::Nul,
    Pre::ReadOnly,
    Pre::Sealed,
    Pre::SealedOver,
    Pre::Mode,
    Pre::NoFds,
];

/// How the encoder for the path is used.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum How {
    Whole,
    /// dropped without an encode
    Unused,
    /// the slice is a byte short, has no pixel at all, or the image has no rows
    Short,
    Nothing,
    Zero,
    /// the image buffer panics when asked for this row
    Row(u16),
}

fn encode_to(c: &Case, data: &[u8], path: &Path, how: How) -> (bool, Out) {
    // (created, result)
    let mut created = false;
    let r = caught(|| {
        macro_rules! go {
            ($k:ident, $v:ident) => {{
                let mut e = $k::Encoder::new_file(path, c.q).map_err($v::err)?;
                created = true;
                for r in $v::configure(c, &mut e) {
                    r?;
                }
                match (how, c.entry) {
                    (How::Unused, _) => Ok(()),
                    (How::Short, _) => e.encode(&data[..data.len() - 1], c.w, c.h, $v::color(c.color)).map_err($v::err),
                    (How::Nothing, _) => e.encode(&[], c.w, c.h, $v::color(c.color)).map_err($v::err),
                    (How::Zero, _) => e.encode(data, c.w, 0, $v::color(c.color)).map_err($v::err),
                    (How::Row(y), _) => {
                        let p = planes(c, data);
                        let hook = move |row: u16| {
                            if row == y {
                                std::panic::resume_unwind(Box::new(()))
                            }
                        };
                        e.encode_image($v::Buf { p: &p, hook: &hook }).map_err($v::err)
                    }
                    (How::Whole, Entry::Slice) => e.encode(data, c.w, c.h, $v::color(c.color)).map_err($v::err),
                    (How::Whole, Entry::Buffer) => {
                        let p = planes(c, data);
                        let rows = std::cell::RefCell::new(Vec::new());
                        let hook = note_row(&rows);
                        e.encode_image($v::Buf { p: &p, hook: &hook }).map_err($v::err)
                    }
                }
            }};
        }
        match c.var {
            Var::Simd => go!(je_simd, v_simd),
            _ => go!(je, v_std),
        }
    });
    (created, to_out(r))
}

/// RAII file size limit
struct Limit(u64);
impl Limit {
    fn set(n: u64) -> Limit {
        let mut old = RLimit { cur: 0, max: 0 };
        unsafe {
            getrlimit(RLIMIT_FSIZE, &mut old);
            signal(SIGXFSZ, 1); // SIG_IGN
            if setrlimit(RLIMIT_FSIZE, &RLimit { cur: n.min(old.max), max: old.max }) != 0 {
                panic!("harness: setrlimit failed");
            }
        }
        Limit(old.cur)
    }
}
impl Drop for Limit {
    fn drop(&mut self) {
        unsafe {
            let mut l = RLimit { cur: 0, max: 0 };
            getrlimit(RLIMIT_FSIZE, &mut l);
            l.cur = self.0;
            setrlimit(RLIMIT_FSIZE, &l);
        }
    }
}

/// Gives permissions and the current directory back.
struct Restore<'a>(&'a Path, Option<PathBuf>, Option<u64>);
impl Drop for Restore<'_> {
    fn drop(&mut self) {
        mode(self.0, 0o700);
        if let Some(d) = &self.1 {
            std::env::set_current_dir(d).expect("harness: the current directory is gone");
        }
        if let Some(n) = self.2 {
            descriptors(n);
        }
    }
}
fn mode(p: &Path, m: u32) {
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).expect("harness: permissions");
}
const RLIMIT_NOFILE: i32 = 7;
/// Sets the soft limit on open files; returns the old one.
fn descriptors(n: u64) -> u64 {
    let mut l = RLimit { cur: 0, max: 0 };
    unsafe {
        getrlimit(RLIMIT_NOFILE, &mut l);
        let old = l.cur;
        l.cur = n;
        assert!(setrlimit(RLIMIT_NOFILE, &l) == 0, "harness: setrlimit");
        old
    }
}

fn names(dir: &Path) -> Vec<std::ffi::OsString> {
    let mut v: Vec<_> = std::fs::read_dir(dir).expect("harness: scratch directory").map(|e| e.expect("harness").file_name()).collect();
    v.sort();
    v
}

fn judge(scratch: &Path, c: &Case, data: &[u8], full: &[u8], pre: Pre, limit: Option<usize>, how: How) -> Result<bool, String> {
    use std::os::unix::ffi::OsStrExt;
    use std::os::unix::fs::{symlink, PermissionsExt};
    // every case finds an empty directory
    let dir = &scratch.join("d");
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir(dir).expect("harness: scratch directory");
    let mut path = dir.join("out.jpg");
    let mut target = dir.join("target.bin");
    let mut restore = Restore(dir, None, None);
    let mut bits = None;
    match pre {
        Pre::Absent | Pre::NoFds => {}
        Pre::Longer(n) => std::fs::write(&path, vec![0x77u8; full.len() + n]).unwrap(),
        Pre::Shorter => std::fs::write(&path, [0x77u8; 5]).unwrap(),
        Pre::SamePrefix => {
            let mut v = full.to_vec();
            v.extend_from_slice(&[1, 2, 3]);
            std::fs::write(&path, v).unwrap()
        }
        Pre::Missing => path = dir.join("no").join("such").join("dir").join("out.jpg"),
        Pre::Directory => path = dir.to_path_buf(),
        Pre::Empty => path = PathBuf::new(),
        Pre::Symlink => {
            std::fs::write(&target, vec![0x66u8; 3]).unwrap();
            symlink(&target, &path).unwrap();
        }
        Pre::HardLink => {
            std::fs::write(&target, vec![0x66u8; full.len() + 9]).unwrap();
            std::fs::hard_link(&target, &path).unwrap();
        }
        Pre::Dangling => symlink("target.bin", &path).unwrap(),
        Pre::Loop => symlink("out.jpg", &path).unwrap(),
        Pre::NonUtf8 => path = dir.join(std::ffi::OsStr::from_bytes(b"o\xff\xfe\x80.jpg")),
        Pre::Odd => path = dir.join(" \"a\" \n\t%s\\..\u{e9} ~$HOME;.JPG."),
        Pre::Long => path = dir.join("n".repeat(255)),
        Pre::TooLong => path = dir.join("n".repeat(256)),
        Pre::Relative => {
            restore.1 = Some(std::env::current_dir().expect("harness: current directory"));
            std::env::set_current_dir(dir).unwrap();
            path = PathBuf::from("out.jpg");
        }
        Pre::Parent => {
            std::fs::create_dir(dir.join("sub")).unwrap();
            path = dir.join("sub/.././sub/..//out.jpg");
        }
        Pre::Slash => path = dir.join("out.jpg/"),
        Pre::Nul => path = dir.join("out\0.jpg"),
        Pre::ReadOnly => {
            std::fs::write(&path, vec![0x55u8; 77]).unwrap();
            mode(&path, 0o444);
        }
        Pre::Sealed => mode(dir, 0o500),
        Pre::SealedOver => {
            std::fs::write(&path, vec![0x55u8; full.len() + 77]).unwrap();
            mode(dir, 0o500);
        }
        Pre::Mode => {
            std::fs::write(&path, vec![0x55u8; 77]).unwrap();
            mode(&path, 0o620);
            bits = Some(0o620);
        }
        Pre::Name(n) => {
            restore.1 = Some(std::env::current_dir().expect("harness: current directory"));
            std::env::set_current_dir(dir).unwrap();
            path = PathBuf::from(NAMES[n as usize]);
            for s in SIBLINGS {
                std::fs::write(s, s).expect("harness: scratch directory");
            }
            for d in path.ancestors().skip(1).filter(|d| !d.as_os_str().is_empty()) {
                std::fs::create_dir_all(d).expect("harness: scratch directory");
            }
        }
    }
    if pre == Pre::Relative {
        target = PathBuf::from("target.bin");
    }
    let before = names(dir);
    if pre == Pre::NoFds {
        restore.2 = Some(descriptors(0));
    }
    let (created, out) = {
        let _l = limit.map(|n| Limit::set(n as u64));
        encode_to(c, data, &path, how)
    };
    if let Some(n) = restore.2.take() {
        descriptors(n);
    }
    let unwound = matches!(how, How::Row(_));
    if let (Out::Panic(p), false) = (&out, unwound) {
        return Err(format!("panic: {}", p));
    }
    match pre {
        Pre::Missing | Pre::Directory | Pre::Empty | Pre::Loop | Pre::TooLong | Pre::Slash | Pre::Nul | Pre::ReadOnly | Pre::Sealed | Pre::NoFds => {
            if created {
                return Err("new_file succeeded for a path that cannot be created".into());
            }
            if pre == Pre::ReadOnly && std::fs::read(&path).ok() != Some(vec![0x55u8; 77]) {
                return Err("a file that may not be written was changed".into());
            }
            if names(dir) != before {
                return Err(format!("a path that cannot be created leaves {:?} in a directory of {:?}", names(dir), before));
            }
            return match out {
                Out::Err(E::Io(..)) => Ok(true),
                o => Err(format!("a path that cannot be created gives {:?}, not an I/O error", o)),
            };
        }
        _ => {}
    }
    if !created {
        return Err(format!("new_file failed: {:?}", out));
    }
    if matches!(pre, Pre::Symlink | Pre::HardLink | Pre::Dangling) {
        let linked = std::fs::read(&target).map_err(|e| format!("the file behind the link cannot be read back: {}", e))?;
        if Ok(&linked) != std::fs::read(&path).as_ref().map_err(|_| ()) {
            return Err("the path was a link to a file; that file does not hold what was written".into());
        }
    }
    let got = std::fs::read(&path).map_err(|e| format!("the file cannot be read back: {}", e))?;
    if let Some(b) = bits {
        let now = std::fs::metadata(&path).map_err(|e| e.to_string())?.permissions().mode() & 0o7777;
        if now != b {
            return Err(format!("the permissions of the existing file changed from {:o} to {:o}", b, now));
        }
    }
    // nothing but the file itself has appeared
    let mut expect = before;
    if pre == Pre::Dangling {
        expect.push("target.bin".into());
    } else if let Some(n) = path.file_name() {
        if !expect.iter().any(|x| x == n) {
            expect.push(n.into());
        }
    }
    if matches!(pre, Pre::Name(_)) {
        let here = path.parent().map_or(true, |d| d.as_os_str().is_empty() || d.as_os_str().as_bytes().starts_with(b"."));
        for s in SIBLINGS.iter().filter(|s| !here || Path::new(s).file_name() != path.file_name()) {
            if std::fs::read(s).ok() != Some(s.as_bytes().to_vec()) {
                return Err(format!("the name is {:?}, but the file {:?} was changed", path, s));
            }
        }
        // the file lies in a directory below
        if let (false, Some(d)) = (here, path.parent()) {
            expect.retain(|x| Some(x.as_os_str()) != path.file_name() || SIBLINGS.iter().any(|s| x == s));
            if names(d) != [path.file_name().unwrap()] {
                return Err(format!("the directory {:?} holds {:?}", d, names(d)));
            }
        }
    }
    expect.sort();
    if names(dir) != expect {
        return Err(format!("the directory holds {:?}, expected {:?}", names(dir), expect));
    }
    let fits = limit.map_or(true, |n| n >= full.len());
    if got.len() > full.len() || got[..] != full[..got.len()] {
        let at = got.iter().zip(full).position(|(a, b)| a != b).unwrap_or(full.len());
        return Err(format!("the file ({} bytes) is not a prefix of the stream ({} bytes): first difference at {}", got.len(), full.len(), at));
    }
    match how {
        How::Whole => {}
        How::Row(_) => {
            return match out {
                // a single row is asked for more than once, or the panic is passed on
                Out::Panic(_) => Ok(true),
                o => Err(format!("the image buffer panicked, the result is {:?}", o)),
            }
        }
        _ => {
            if !got.is_empty() {
                return Err(format!("{:?}: the file holds {} bytes", how, got.len()));
            }
            return match (how, out) {
                (How::Unused, Out::Ok) => Ok(true),
                (How::Short | How::Nothing, Out::Err(E::BadData { .. })) => Ok(true),
                (How::Zero, Out::Err(E::Zero { .. })) => Ok(true),
                (_, o) => Err(format!("{:?} gives {:?}", how, o)),
            };
        }
    }
    match (fits, out) {
        (true, Out::Ok) => {
            if got.len() != full.len() {
                return Err(format!("success reported, but the file holds {} of {} bytes", got.len(), full.len()));
            }
            Ok(true)
        }
        (true, o) => Err(format!("there is room for the file, but the result is {:?}", o)),
        (false, Out::Ok) => Err(format!("success reported although only {} of {} bytes fit", limit.unwrap_or(0), full.len())),
        (false, Out::Err(E::Io(..))) => Ok(true),
        (false, o) => Err(format!("the device is full, but the error is {:?}", o)),
    }
}

fn text(c: &Case, pre: Pre, limit: Option<usize>, how: How) -> String {
    let how = match how {
        How::Row(y) => format!("row:{}", y),
        h => format!("{:?}", h),
    };
    format!("{} pre={:?} limit={} how={}", c, pre, limit.map(|x| x.to_string()).unwrap_or_else(|| "none".into()), how)
}
fn how_of(t: &str) -> How {
    if let Some(y) = t.strip_prefix("row:") {
        return How::Row(y.parse().unwrap_or(0));
    }
    [How::Unused, How::Short, How::Nothing, How::Zero].into_iter().find(|h| format!("{:?}", h) == t).unwrap_or(How::Whole)
}

pub fn replay(t: &str) -> Result<(), String> {
    let c = parse_case(t)?;
    let get = |k: &str| t.split_whitespace().find_map(|x| x.strip_prefix(k)).unwrap_or("").to_string();
    let p = get("pre=");
    let pre = match p.strip_prefix("Longer(").and_then(|x| x.strip_suffix(")")) {
        Some(n) => Pre::Longer(n.parse().map_err(|_| "unknown precondition")?),
        None if p.starts_with("Name(") => Pre::Name(p[5..].trim_end_matches(')').parse().ok().filter(|n| (*n as usize) < NAMES.len()).ok_or("unknown precondition")?),
        None => PRES.iter().copied().find(|x| format!("{:?}", x) == p).ok_or("unknown precondition")?,
    };
    let limit = get("limit=").parse().ok();
    let data = c.data();
    let full = run_data(&c, &data);
    if !full.ok() {
        return Err(format!("encoding into memory failed: {:?}", full.out));
    }
    let dir = Scratch::new();
    let _unprivileged = Unprivileged::enter();
    judge(&dir.0, &c, &data, &full.bytes, pre, limit, how_of(&get("how="))).map(|_| ())
}

/// `c` with an application segment that makes the stream exactly `len` bytes long
fn of_length(c: &Case, len: usize) -> Option<Case> {
    let base = Case { apps: vec![App::Seg(5, 0, 1)], ..c.clone() };
    let l0 = crate::enc::run(&base).bytes.len();
    if len < l0 || len - l0 > 65533 {
        return None;
    }
    Some(Case { apps: vec![App::Seg(5, len - l0, 1)], ..base })
}

pub fn run()  -> Result<Ev, Violation> {
    let t = thorough();
    let dir = Scratch::new();
    let _unprivileged = Unprivileged::enter(); // dropped before the scratch directory
    let mut total = 0u64;
    let mut offsets = 0u64;
    let mut histories = 0u64;
    let mut hit = 0u64;
    let mut seen = std::collections::HashSet::new();
    let mut samples = Vec::new();
    let b = Case { w: 33, h: 19, q: 85, content: Content::Pat(0, 1), ..Case::default() };
    let small: Vec<Case> = vec![
        Case { color: 0, ..b.clone() },
        Case { color: 1, rst: 2, opt: true, ..b.clone() },
        Case { color: 6, prog: 3, ..b.clone() },
        Case { color: 8, samp: 4, entry: Entry::Buffer, ..b.clone() },
        Case { color: 2, var: Var::Simd, ..b.clone() },
        Case { color: 1, var: Var::Simd, prog: 1, opt: true, rst: 1, w: 50, h: 40, ..b.clone() },
    ];
    let mut go = |c: &Case, data: &[u8], full: &[u8], pre: Pre, limit: Option<usize>, how: How| -> Result<(), Violation> {
        total += 1;
        let x = text(c, pre, limit, how);
        match judge(&dir.0, c, data, full, pre, limit, how) {
            Ok(h) => {
                hit += (limit.map_or(false, |l| l < full.len())) as u64;
                if h {
                    seen.insert(fnv(x.as_bytes()));
                }
                if total % 4999 == 1 {
                    samples.push(x);
                }
                Ok(())
            }
            Err(what) => Err(Violation { replay: x, what }),
        }
    };
    let mem = |c: &Case| -> Result<(Vec<u8>, Vec<u8>), Violation> {
        let d = c.data();
        let r = run_data(c, &d);
        if !r.ok() {
            return Err(Violation { replay: text(c, Pre::Absent, None, How::Whole), what: format!("encoding into memory failed: {:?}", r.out) });
        }
        Ok((d, r.bytes))
    };
    for c in &small {
        let (d, full) = mem(c)?;
        histories += 1;
        for pre in PRES.iter() {
            go(c, &d, &full, *pre, None, How::Whole)?;
        }
        for n in 0..NAMES.len() as u8 {
            go(c, &d, &full, Pre::Name(n), None, How::Whole)?;
            go(c, &d, &full, Pre::Name(n), Some(full.len() / 2), How::Whole)?;
            go(c, &d, &full, Pre::Name(n), None, How::Short)?;
        }
        // the encode does not take place, is refused, or is cut short
        for pre in PRES.iter().filter(|p| !matches!(p, Pre::Directory | Pre::Empty)) {
            for how in [How::Unused, How::Short, How::Nothing, How::Zero, How::Row(0), How::Row(c.h / 2), How::Row(c.h - 1)] {
                go(c, &d, &full, *pre, None, how)?;
            }
        }
        for y in 0..c.h {
            go(c, &d, &full, Pre::Longer(1), None, How::Row(y))?;
        }
        // the disk fills up at every byte
        for n in 0..=full.len() + 1 {
            offsets += 1;
            go(c, &d, &full, Pre::Absent, Some(n), How::Whole)?;
            if t {
                go(c, &d, &full, Pre::Longer(20000), Some(full.len() + 20000 + n), How::Whole)?;
            }
        }
    }
    // every configuration near two bases
    let near = crate::dev::both(if t { 3 } else { 2 }, if t { 3 } else { 2 }, false, &["quality", "density", "first table"]);
    for s in &near {
        for i in 0..s.n {
            if let Some(c) = (s.get)(i).filter(|c| c.var != Var::NoStd) {
                let (d, full) = mem(&c)?;
                histories += 1;
                go(&c, &d, &full, Pre::Absent, None, How::Whole)?;
            }
        }
    }
    // every length of the stream, across the boundaries of the usual buffer sizes
    let luma = &small[0];
    let l0 = crate::enc::run(luma).bytes.len() + 4;
    let top = if t { 33000 } else { 9300 };
    let mut lengths: Vec<usize> = (l0..top).collect();
    for k in [12288usize, 16384, 24576, 32768, 40960, 49152, 65536] {
        lengths.extend(k - 12..k + 12);
    }
    for len in lengths {
        if let Some(c) = of_length(luma, len) {
            let (d, full) = mem(&c)?;
            if full.len() != len {
                return Err(Violation { replay: text(&c, Pre::Absent, None, How::Whole), what: format!("harness: stream of {} bytes expected, {} found", len, full.len()) });
            }
            histories += 1;
            go(&c, &d, &full, Pre::Absent, None, How::Whole)?;
        }
    }
    // larger streams: every offset around the buffer boundaries, and every 61st
    let big: Vec<Case> = vec![
        Case { color: 1, w: 150, h: 150, q: 98, ..b.clone() },
        Case { color: 8, w: 130, h: 100, q: 98, prog: 5, opt: true, apps: vec![App::Icc(9000, 3)], ..b.clone() },
        Case { color: 4, w: 150, h: 150, q: 98, var: Var::Simd, rst: 3, ..b.clone() },
    ];
    for c in &big {
        let (d, full) = mem(c)?;
        histories += 1;
        for n in 0..=full.len() {
            let near = n % 4096 < 12 || n % 4096 > 4084 || full.len() - n < 40;
            if t || near || n % 61 == 0 {
                offsets += 1;
                go(c, &d, &full, Pre::Absent, Some(n), How::Whole)?;
            }
        }
        go(c, &d, &full, Pre::Longer(1), None, How::Whole)?;
    }
    Ok(Ev {
        prop: "C17",
        level: "fault_enumeration",
        coverage: Json::new()
            .num("evaluations", total)
            .num("distinct_nontrivial", seen.len() as u64)
            .str("rule", "a history is one encode into a file; the file system fills up (RLIMIT_FSIZE) at every byte of it, the path starts in every listed state, and the stream takes every length across the buffer boundaries; non-trivial: the verdict was reached with the fault in place")
            .num("histories", histories)
            .num("fill_offsets", offsets)
            .num("faults_hit", hit)
            .strs("samples", &samples)
            .bool("exhaustive", t),
        assumptions: vec![
            "a full device is modelled by RLIMIT_FSIZE (short write up to the limit, then EFBIG)".into(),
            "loss of power after success is outside the property (no fsync is promised)".into(),
        ],
    })
}
