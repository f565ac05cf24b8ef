//! C22: the playground survives any input and shows the right cube.
use super::c10::{ext, mutate, random_move};
use super::c12::{acts, Held};
use super::c20::{facelets, is_default, terminal};
use super::*;
use crate::notation::{self as nt, Note};
use std::os::fd::{FromRawFd, OwnedFd};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const PATIENCE: Duration = Duration::from_secs(100);
const REPO: &str = "/repo/barbarosa/Cargo.toml";

/// Builds the real binary from the working tree, in the dev or in the release profile
pub fn build(profile: &str) -> Result<PathBuf, String> {
    let dir = verif_dir().join("target/playground");
    let o = Command::new("cargo")
        .args(["build", "--offline", "--bin", "barbarosa", "--profile", profile, "--manifest-path", REPO])
        .env("CARGO_TARGET_DIR", &dir)
        .env_remove("RUSTFLAGS")
        .output()
        .expect("harness: cargo");
    if !o.status.success() {
        return Err(format!("the binary does not build: {}", String::from_utf8_lossy(&o.stderr)));
    }
    Ok(dir.join(if profile == "dev" { "debug" } else { profile }).join("barbarosa"))
}

pub fn child_build() {
    println!("{:?} {:?}", build("dev"), build("release"));
}

/// The colors of the facelets in the order in which the picture is printed: rows of U, of L F R, of D, of B
type Picture = Vec<Vec<usize>>;
fn picture(p: &Phys) -> Picture {
    let f = facelets(p);
    let mut v = vec![];
    for i in 0..3 {
        v.push(f[1][i].clone());
    }
    for i in 0..3 {
        v.push([3, 2, 0].iter().flat_map(|x| f[*x][i].clone()).collect());
    }
    for x in [4, 5] {
        for i in 0..3 {
            v.push(f[x][i].clone());
        }
    }
    v
}

/// What must happen for each line: a picture of the base cube or of the cube as it is held, or a reported error
#[derive(Clone)]
enum Want {
    Shown(Box<[Picture; 2]>),
    Refused,
}

struct Session {
    lines: Vec<Vec<u8>>,
    last_newline: bool,
    wants: Vec<Want>,
    held: Held,
}

impl Session {
    fn new() -> Session {
        Session { lines: vec![], last_newline: true, wants: vec![], held: Held { n: 3, h: Rot::ID, base: vec![] } }
    }
    fn pictures(&self) -> Box<[Picture; 2]> {
        let base = Phys::solved(3).with_word(&self.held.base);
        let mut seen = base.clone();
        for (a, k) in self.held.h.as_turns() {
            seen.turn_whole(a, k);
        }
        Box::new([picture(&base), picture(&seen)])
    }
    /// Adds a line, unless its meaning is not determined
    fn push(&mut self, line: &[u8]) -> bool {
        if line.contains(&b'\n') {
            return false;
        }
        let text = line.strip_suffix(b"\r").unwrap_or(line);
        let meaning = match std::str::from_utf8(text) {
            Ok(s) => match nt::alg(s, nt::extended) {
                Some(m) => m,
                None => return false,
            },
            Err(_) => Err(()),
        };
        let want = match meaning {
            Ok(notes) => {
                for n in &notes {
                    for a in acts(&ext(n), 3) {
                        self.held.act(&a);
                    }
                }
                // keep the word short: the model only needs what it does
                Want::Shown(self.pictures())
            }
            Err(()) => Want::Refused,
        };
        self.lines.push(line.to_vec());
        self.wants.push(want);
        true
    }
    fn bytes(&self) -> Vec<u8> {
        let mut v = self.lines.join(&b'\n');
        if self.last_newline && !self.lines.is_empty() {
            v.push(b'\n');
        }
        v
    }
    fn describe(&self) -> String {
        let b = self.bytes();
        let s: String = b.iter().take(1500).flat_map(|c| std::ascii::escape_default(*c)).map(char::from).collect();
        format!("input \"{s}\"{}", if b.len() > 1500 { "..." } else { "" })
    }
}

/// Parts of the output: pictures (colors by row), and other text between them
#[derive(Debug)]
enum Part {
    Picture(Picture),
    Text(String),
}

const ROWS: [usize; 12] = [3, 3, 3, 9, 9, 9, 3, 3, 3, 3, 3, 3];

fn parts(out: &[u8]) -> Result<Vec<Part>, String> {
    let text = String::from_utf8_lossy(out);
    // the colored pictures never contain text of the input, but messages may contain any characters
    let mut v = vec![];
    let mut rows: Picture = vec![];
    for line in text.split('\n') {
        let mut colored = vec![];
        let mut rest = String::new();
        match terminal(line) {
            Ok(t) => {
                for (c, back) in t.concat() {
                    match back {
                        Some(rgb) => colored.push(((0..6).find(|f| is_default(*f, rgb)), c)),
                        None => rest.push(c),
                    }
                }
            }
            Err(_) => rest = line.to_string(), // of a message
        }
        let mut rest = rest.trim();
        while let Some(r) = rest.strip_prefix('>') {
            rest = r.trim_start();
        }
        if !rest.is_empty() {
            v.push(Part::Text(rest.to_string()));
        }
        if !colored.is_empty() {
            let mut row = vec![];
            for p in colored.chunks(2) {
                match p {
                    [(Some(a), ' '), (Some(b), ' ')] if a == b => row.push(*a),
                    _ => return Err(format!("a strange row of a picture: {p:?}")),
                }
            }
            if row.len() != ROWS[rows.len()] {
                return Err(format!("row {} of a picture has {} facelets", rows.len() + 1, row.len()));
            }
            rows.push(row);
            if rows.len() == 12 {
                v.push(Part::Picture(std::mem::take(&mut rows)));
            }
        }
    }
    if !rows.is_empty() {
        return Err("an unfinished picture".into());
    }
    Ok(v)
}

/// Compares what was printed for these lines; `views` says which of the two views the pictures can still be
fn judge(out: &[u8], wants: &[Want], first: Option<&[Picture; 2]>, views: &mut [bool; 2]) -> Result<(u64, u64), String> {
    let mut expect: Vec<(&[Picture; 2], usize)> = vec![];
    let mut pending = 0;
    if let Some(p) = first {
        expect.push((p, 0));
    }
    for w in wants {
        match w {
            Want::Shown(p) => {
                expect.push((p, pending));
                pending = 0;
            }
            Want::Refused => pending += 1,
        }
    }
    let (mut i, mut texts, mut refused) = (0, 0usize, 0u64);
    let between = |texts: usize, pending: usize, i: usize| -> Result<(), String> {
        if pending == 0 && texts > 0 {
            return Err(format!("an error is reported although all the lines before picture {i} are valid"));
        }
        if texts < pending {
            return Err(format!("{pending} invalid lines before picture {i}, but only {texts} lines of messages"));
        }
        Ok(())
    };
    for p in parts(out)? {
        match p {
            Part::Text(_) => texts += 1,
            Part::Picture(got) => {
                let Some((want, pending)) = expect.get(i) else {
                    return Err(format!("{} pictures were expected, and there are more", expect.len()));
                };
                between(texts, *pending, i)?;
                refused += *pending as u64;
                texts = 0;
                for v in 0..2 {
                    views[v] &= got == want[v];
                }
                if !views[0] && !views[1] {
                    return Err(format!("picture {i} shows {got:?}, not {:?}", want[0]));
                }
                i += 1;
            }
        }
    }
    if i < expect.len() {
        return Err(format!("{} pictures were expected, and there are {i}", expect.len()));
    }
    between(texts, pending, i)?;
    Ok((i as u64, refused + pending as u64))
}

fn pipe() -> (OwnedFd, OwnedFd) {
    let mut f = [0; 2];
    // SAFETY: two new file descriptors that nobody else has
    unsafe {
        assert!(libc::pipe2(f.as_mut_ptr(), libc::O_CLOEXEC) == 0, "harness: pipe");
        (OwnedFd::from_raw_fd(f[0]), OwnedFd::from_raw_fd(f[1]))
    }
}

enum Way {
    /// all the input is there, in a file
    File,
    /// written in pieces of up to so many bytes, with pauses
    Pieces(usize, bool),
    /// waits for every response
    Talk,
    /// a terminal
    Terminal,
    /// standard input is closed
    Closed,
}

struct Reader {
    fd: std::os::fd::RawFd,
    got: Vec<u8>,
    ended: bool,
}
impl Reader {
    /// Reads what comes within this time; true if something (or the end) came
    fn more(&mut self, wait: Duration) -> bool {
        let mut p = libc::pollfd { fd: self.fd, events: libc::POLLIN, revents: 0 };
        // SAFETY: a file descriptor that is open, and a buffer of the given size
        unsafe {
            if libc::poll(&mut p, 1, wait.as_millis() as i32) <= 0 {
                return false;
            }
            let mut b = [0u8; 65536];
            let n = libc::read(self.fd, b.as_mut_ptr().cast(), b.len());
            if n <= 0 {
                self.ended = true;
            } else {
                self.got.extend(&b[..n as usize]);
            }
        }
        true
    }
}

fn waits(r: &mut Reader, child: &mut std::process::Child, enough: &dyn Fn(&[u8]) -> bool, what: &str) -> Result<(), String> {
    let t = Instant::now();
    while !enough(&r.got) {
        if r.ended {
            let how = child.wait().map(|s| s.to_string()).unwrap_or_default();
            return Err(format!("it ended ({how}) instead of {what}"));
        }
        if t.elapsed() > PATIENCE {
            let _ = child.kill();
            let _ = child.wait();
            return Err(format!("waited {PATIENCE:?} for {what}"));
        }
        r.more(Duration::from_millis(200));
    }
    // what still comes, up to the next prompt
    while !r.got.ends_with(b"\n> ") && r.got != b"> " && r.more(Duration::from_millis(100)) && !r.ended {}
    Ok(())
}

/// Runs the playground on the input; numbers of pictures and of refused lines
fn play(bin: &std::path::Path, s: &Session, way: &Way, first: &[Picture; 2], dir: &std::path::Path, part: usize) -> Result<(u64, u64), String> {
    use std::io::Write;
    use std::os::fd::AsRawFd;
    let (out_r, out_w) = pipe();
    let mut cmd = Command::new(bin);
    cmd.arg("-p").current_dir(dir).env_remove("NO_COLOR").env_remove("RUST_BACKTRACE");
    cmd.stdout(Stdio::from(out_w.try_clone().expect("harness: dup"))).stderr(Stdio::from(out_w));
    let bytes = s.bytes();
    let mut to: Option<std::fs::File> = None;
    let file = dir.join(format!("in{part}"));
    match way {
        Way::File => {
            std::fs::write(&file, &bytes).expect("harness: file");
            cmd.stdin(std::fs::File::open(&file).expect("harness: file"));
        }
        Way::Closed => {
            use std::os::unix::process::CommandExt;
            cmd.stdin(Stdio::null());
            // SAFETY: close may be called between fork and exec
            unsafe {
                cmd.pre_exec(|| {
                    libc::close(0);
                    Ok(())
                });
            }
        }
        Way::Terminal => {
            let (mut m, mut sl) = (0, 0);
            // SAFETY: the attributes are read before they are changed; the descriptors are new
            unsafe {
                if libc::openpty(&mut m, &mut sl, std::ptr::null_mut(), std::ptr::null(), std::ptr::null()) != 0 {
                    return Ok((0, 0)); // no terminals here
                }
                libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
                libc::fcntl(sl, libc::F_SETFD, libc::FD_CLOEXEC);
                let mut t: libc::termios = std::mem::zeroed();
                libc::tcgetattr(sl, &mut t);
                t.c_lflag &= !libc::ECHO;
                libc::tcsetattr(sl, libc::TCSANOW, &t);
                to = Some(std::fs::File::from_raw_fd(m));
                cmd.stdin(Stdio::from(OwnedFd::from_raw_fd(sl)));
            }
        }
        _ => {
            let (r, w) = pipe();
            cmd.stdin(Stdio::from(r));
            to = Some(std::fs::File::from(w));
        }
    }
    let mut child = cmd.spawn().expect("harness: the binary starts");
    drop(cmd);
    let mut r = Reader { fd: out_r.as_raw_fd(), got: vec![], ended: false };
    let mut views = [true; 2];
    let mut counts = (0, 0);
    let mut rest: &[Want] = &s.wants;
    let mut opening = Some(first);
    let mut writer = None;
    match way {
        Way::Talk | Way::Terminal => {
            let to = to.as_mut().unwrap();
            waits(&mut r, &mut child, &|g| matches!(parts(g), Ok(p) if !p.is_empty()), "the picture of the solved cube")?;
            judge(&r.got, &[], opening.take(), &mut views)?;
            for (i, (l, w)) in s.lines.iter().zip(&s.wants).enumerate() {
                let name = || format!("line {} (\"{}\")", i + 1, l.escape_ascii());
                r.got.clear();
                let mut l = l.clone();
                l.push(b'\n');
                if to.write_all(&l).and_then(|_| to.flush()).is_err() {
                    let how = child.wait().map(|s| s.to_string()).unwrap_or_default();
                    return Err(format!("it ended ({how}) before {}", name()));
                }
                let shown = matches!(w, Want::Shown(_));
                waits(
                    &mut r,
                    &mut child,
                    &|g| matches!(parts(g), Ok(p) if p.iter().any(|p| matches!(p, Part::Picture(_)) || !shown)),
                    &format!("the response to {}", name()),
                )?;
                let c = judge(&r.got, std::slice::from_ref(w), None, &mut views).map_err(|e| format!("{}: {e}", name()))?;
                counts = (counts.0 + c.0, counts.1 + c.1);
            }
            r.got.clear();
            rest = &[];
            if matches!(way, Way::Terminal) {
                let _ = to.write_all(&[4]); // end of input
            }
        }
        Way::Pieces(size, slow) => {
            let (size, slow, mut to) = (*size, *slow, to.take().unwrap());
            let mut x = hash_of(&bytes) | 1;
            writer = Some(std::thread::spawn(move || {
                let mut b = &bytes[..];
                while !b.is_empty() {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let n = (1 + (x >> 33) as usize % size).min(b.len());
                    if to.write_all(&b[..n]).is_err() {
                        return;
                    }
                    b = &b[n..];
                    if slow {
                        std::thread::sleep(Duration::from_micros((x >> 40) % 1500));
                    }
                }
            }));
        }
        _ => (),
    }
    if !matches!(way, Way::Terminal) {
        drop(to.take());
    }
    let t = Instant::now();
    while !r.ended {
        r.more(Duration::from_millis(500));
        if t.elapsed() > PATIENCE || r.got.len() > 400_000_000 {
            let _ = child.kill();
            let _ = child.wait();
            return Err(format!("it has not ended {:?} after the end of the input, and has printed {} bytes", t.elapsed(), r.got.len()));
        }
    }
    let status = child.wait().expect("harness: wait");
    drop(to);
    if let Some(w) = writer {
        let _ = w.join();
    }
    let _ = std::fs::remove_file(&file);
    if !status.success() {
        let tail = String::from_utf8_lossy(&r.got[r.got.len().saturating_sub(500)..]).into_owned();
        return Err(format!("it ended with {status}: {tail:?}"));
    }
    let c = judge(&r.got, rest, opening, &mut views)?;
    Ok((counts.0 + c.0, counts.1 + c.1))
}

fn random_line(rng: &mut impl Rng, plain: bool) -> Vec<u8> {
    let l = len(rng, 6, 30);
    let mut a: String = (0..l).map(|_| random_move(rng)).collect::<Vec<_>>().join(" ");
    let seps = ["  ", "\t", "\r", "\u{a0}", "\u{2028}", "\u{85}", "\u{b}"];
    if !plain && rng.gen_range(0..4) == 0 {
        a = a.replacen(' ', seps[rng.gen_range(0..seps.len())], 2);
    }
    let mut b = match rng.gen_range(0..9) {
        0 => mutate(rng, &a),
        // valid up to the last move, or from the second one
        1 => a + [" Q", " R3", " (", "R", " 0", " '", " Rw Rx", " 4294967297Rw"][rng.gen_range(0..8)],
        2 => ["Q ", "R22 ", "' ", "2R ", "w "][rng.gen_range(0..5)].to_string() + &a,
        3 => String::new(),
        4 => " \t ".into(),
        _ => a,
    }
    .into_bytes();
    if plain {
        b.retain(|c| (32..127).contains(c));
        return b;
    }
    match rng.gen_range(0..14) {
        0 => b.push(b'\r'),
        1 => {
            let p = rng.gen_range(0..=b.len());
            b.insert(p, rng.gen_range(128..=255));
        }
        2 => b = (0..rng.gen_range(1..20)).map(|_| rng.gen()).collect(),
        3 => {
            let p = rng.gen_range(0..=b.len());
            b.insert(p, 0);
        }
        4 => b.truncate(rng.gen_range(0..=b.len())),
        _ => (),
    }
    b
}

pub fn check(ctx: &mut Ctx) {
    ctx.rule = "the real binary, fed lines in files, pipes (whole, in pieces, slowly, waiting for each response), terminals and nothing at all; its whole output against the own parser and the sticker model: one right picture per valid line, a message per invalid one, exit status 0".into();
    let bins = ["dev", "release"].map(|p| build(p).unwrap_or_else(|e| ctx.error(&e)));
    let first = Session::new().pictures();
    let scratch = Scratch::new("C22");
    let mut jobs: Vec<(Session, Way)> = vec![];
    // special inputs
    for way in [Way::File, Way::Pieces(1, false), Way::Terminal, Way::Closed, Way::Talk] {
        jobs.push((Session::new(), way));
    }
    let mut single = |v: &[&[u8]], last: bool| {
        for way in [Way::File, Way::Pieces(3, false), Way::Talk] {
            let mut s = Session::new();
            for l in v {
                assert!(s.push(l), "harness: an undetermined line");
            }
            s.last_newline = last || matches!(way, Way::Talk);
            jobs.push((s, way));
        }
    };
    let special: [&[u8]; 22] = [
        b"R", b"", b"\r", b"x", b"Rw", b"3Rw", b"M", b"m", b"Q", b"R Q", b"\xff", b"\xe2\x80", b"R \xff U", b"\0", b"R\0", b"R\r", b"exit", b"quit", b"-p", b"\x1b[A", b"4294967295Rw'", b"y R M' z2 u b' E s2",
    ];
    for a in special {
        for last in [true, false] {
            if !a.is_empty() && (last || !a.ends_with(b"\r")) {
                single(&[a], last);
            }
            single(&[a, b"U2 F"], last);
            single(&[b"L D'", a, b"", b"B"], last);
        }
    }
    let many = |l: &str, n: usize| vec![l; n].join(" ").into_bytes();
    for n in [3000usize, 40_000] {
        let (a, b, c, d) = (many("R U' x", n), many("R", n) , vec![b'Q'; 5 * n], [many("R U", n), b"Q".to_vec()].concat());
        single(&[b"F", &a, b"U", &b, &d, &c, b"L"], true);
    }
    single(&vec![&b""[..]; 3000], true);
    single(&vec![&b"Q"[..]; 3000], false);
    // random sessions
    for i in 0..ctx.amount(500, 30_000) {
        let mut s = Session::new();
        let way = match i % 10 {
            0..=2 => Way::Talk,
            3 => Way::Terminal,
            4 => Way::Pieces(1, false),
            5 => Way::Pieces(40, true),
            6 => Way::Pieces(5000, false),
            _ => Way::File,
        };
        let l = len(&mut ctx.rng, 20, 120);
        for _ in 0..l {
            let mut line = random_line(&mut ctx.rng, matches!(way, Way::Terminal));
            line.retain(|c| *c != b'\n');
            s.push(&line);
        }
        s.last_newline = ctx.rng.gen() || matches!(way, Way::Talk | Way::Terminal) || s.lines.last().is_some_and(|l| l.is_empty() || l.ends_with(b"\r"));
        jobs.push((s, way));
    }
    let dir = scratch.0.clone();
    let done = parallel(jobs.len(), |i| {
        let b = usize::from(i % 3 == 2 || i % 50 == 7);
        play(&bins[b], &jobs[i].0, &jobs[i].1, &first, &dir, i).map_err(|e| format!("{} ({} build): {e}", jobs[i].0.describe(), ["dev", "release"][b]))
    });
    match done {
        Ok(v) => {
            for (p, r) in &v {
                ctx.metric("right pictures", *p);
                ctx.metric("invalid lines reported", *r);
            }
        }
        Err(e) => ctx.fail(e),
    }
    for (i, (s, w)) in jobs.iter().enumerate() {
        ctx.metric(if i % 3 == 2 || i % 50 == 7 { "sessions of the release build" } else { "sessions of the dev build" }, 1);
        ctx.eval(hash_of(&s.bytes()));
        let k = match w {
            Way::File => "sessions from files",
            Way::Pieces(..) => "sessions through pipes",
            Way::Talk => "sessions that wait for every response",
            Way::Terminal => "sessions in terminals",
            Way::Closed => "sessions without standard input",
        };
        ctx.metric(k, 1);
        let want = s.wants.iter().filter(|w| matches!(w, Want::Shown(_))).count();
        ctx.sample(|| format!("{} ({want} valid lines)", s.describe().chars().take(300).collect::<String>()));
    }
}
