// Replay / bounded-exploration driver.
//
// This file is appended (as `#[cfg(test)] mod verif_driver;`) to a mechanical copy of /repo's sources, so it
// runs the real pipeline in-process with the small BLOCK_SIZE that the crate itself selects under cfg(test).
// It contains no model of nd's *algorithms*: `oracle` below states, over whole byte arrays, what README.md
// promises for each stage, and the driver compares the two.
//
// commands (env ND_VERIF_CMD):
//   explore   ND_VERIF_PROP, ND_VERIF_SEED, ND_VERIF_CASES, ND_VERIF_SECS
//   replay    ND_VERIF_CASE=<file>
// results are printed as lines on stdout, prefixed by "@@".

#![allow(dead_code)]

use crate::byte::ByteStream;
use crate::pipeline::Pipeline;
use crate::Args;
use clap::{CommandFactory, FromArgMatches};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0xd1b54a32d192ed03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        if self.0 == 0 {
            self.0 = 0x1234567;
        }
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545f4914f6cdd1d)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.next() >> 11) % n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
}

// ---------------------------------------------------------------------------------------------- cases

#[derive(Clone, Debug, Default)]
pub struct Case {
    pub kind: String,              // "pipe" | "expr" | ...
    pub args: Vec<String>,         // {PATCH}, {GUIDE}, {DIR} are substituted with scratch paths
    pub inputs: Vec<Vec<u8>>,      // in-memory input files
    pub patch: Option<Vec<u8>>,    // contents of {PATCH}
    pub guide: Option<Vec<u8>>,    // contents of {GUIDE}
    pub pre: Option<Vec<u8>>,      // previous contents of the output file {DIR}/out
    pub chunk: u64,                // seed of the read-chunking schedule
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

impl Case {
    pub fn serialize(&self) -> String {
        let mut s = format!("kind {}\nchunk {}\n", self.kind, self.chunk);
        for a in &self.args {
            s.push_str(&format!("arg {}\n", hex(a.as_bytes())));
        }
        for a in &self.inputs {
            s.push_str(&format!("input {}\n", hex(a)));
        }
        if let Some(p) = &self.patch {
            s.push_str(&format!("patch {}\n", hex(p)));
        }
        if let Some(p) = &self.guide {
            s.push_str(&format!("guide {}\n", hex(p)));
        }
        if let Some(p) = &self.pre {
            s.push_str(&format!("pre {}\n", hex(p)));
        }
        s
    }
    pub fn deserialize(s: &str) -> Case {
        let mut c = Case::default();
        for l in s.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "kind" => c.kind = v.to_string(),
                "chunk" => c.chunk = v.parse().unwrap(),
                "arg" => c.args.push(String::from_utf8(unhex(v)).unwrap()),
                "input" => c.inputs.push(unhex(v)),
                "patch" => c.patch = Some(unhex(v)),
                "guide" => c.guide = Some(unhex(v)),
                "pre" => c.pre = Some(unhex(v)),
                _ => {}
            }
        }
        c
    }
    fn opt(&self, name: &str) -> Option<&str> {
        let mut it = self.args.iter();
        while let Some(a) = it.next() {
            if a == name {
                return it.next().map(|x| x.as_str());
            }
        }
        None
    }
    fn size(&self) -> usize {
        self.args.iter().map(|x| x.len() + 3).sum::<usize>()
            + self.inputs.iter().map(|x| x.len() + 2).sum::<usize>()
            + self.patch.as_ref().map_or(0, |x| x.len())
            + self.guide.as_ref().map_or(0, |x| x.len())
            + self.pre.as_ref().map_or(0, |x| x.len())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Out { out: Vec<u8>, files: BTreeMap<String, Vec<u8>> },
    Err(String),
    Panic(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Out { out: Vec<u8>, files: BTreeMap<String, Vec<u8>>, unordered: bool },
    Err,
    Skip,    // nothing is specified
    NoPanic, // whatever but a crash
}

// ---------------------------------------------------------------------------------------------- running the code

// reader that returns the contents in adversarial pieces
struct ChunkReader {
    data: Vec<u8>,
    pos: usize,
    rng: Rng,
    mode: usize,
}

impl ChunkReader {
    fn new(data: Vec<u8>, seed: u64) -> Self {
        let mut rng = Rng::new(seed);
        let mode = if seed == 0 { 0 } else { rng.below(5) };
        ChunkReader { data, pos: 0, rng, mode }
    }
}

impl Read for ChunkReader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let rem = std::cmp::min(self.data.len() - self.pos, buf.len());
        if rem == 0 {
            return Ok(0);
        }
        let n = match self.mode {
            0 => rem,
            1 => 1,
            2 => 1 + self.rng.below(7),
            3 => 1 + self.rng.below(200),
            _ => {
                if self.rng.chance(1, 3) {
                    1 + self.rng.below(3)
                } else {
                    1 + self.rng.below(rem)
                }
            }
        };
        let n = std::cmp::min(n, rem);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

const OUT_CAP: usize = 1 << 24;

struct Sink {
    out: Arc<Mutex<Vec<u8>>>,
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let mut o = self.out.lock().unwrap();
        if o.len() > OUT_CAP {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "output exceeds the cap of the driver"));
        }
        o.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

static PANICS: AtomicU64 = AtomicU64::new(0);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let m = format!("{loc}: {msg}");
        PANICS.fetch_add(1, Ordering::SeqCst);
        *LAST_PANIC.lock().unwrap() = m.clone();
        PANIC_MSG.with(|p| *p.borrow_mut() = m);
    }));
}

fn scratch() -> PathBuf {
    PathBuf::from(std::env::var("ND_VERIF_SCRATCH").expect("ND_VERIF_SCRATCH"))
}

fn subst(a: &str) -> String {
    let d = scratch();
    let d = d.to_str().unwrap();
    a.replace("{PATCH}", &format!("{d}/patch"))
        .replace("{GUIDE}", &format!("{d}/guide"))
        .replace("{DIR}", &format!("{d}/o"))
}

fn clear_outdir() {
    let d = scratch().join("o");
    if let Ok(rd) = std::fs::read_dir(&d) {
        for e in rd.flatten() {
            let _ = std::fs::remove_file(e.path());
        }
    } else {
        let _ = std::fs::create_dir_all(&d);
    }
}

fn parse_args(args: &[String]) -> anyhow::Result<Args> {
    let mut v = vec!["nd".to_string()];
    v.extend(args.iter().map(|x| subst(x)));
    let cmd = Args::command().name("nd").version("0.0.1").dont_delimit_trailing_values(true).infer_long_args(true);
    let m = cmd.try_get_matches_from(v)?;
    Ok(Args::from_arg_matches(&m)?)
}

fn run_pipe(c: &Case) -> Act {
    clear_outdir();
    let d = scratch();
    if let Some(p) = &c.patch {
        std::fs::write(d.join("patch"), p).unwrap();
    }
    if let Some(p) = &c.guide {
        std::fs::write(d.join("guide"), p).unwrap();
    }
    if let Some(p) = &c.pre {
        std::fs::write(d.join("o/out"), p).unwrap();
    }

    let panics = PANICS.load(Ordering::SeqCst);
    let out = Arc::new(Mutex::new(Vec::new()));
    let o2 = out.clone();
    let c2 = c.clone();
    let r = catch_unwind(AssertUnwindSafe(move || -> anyhow::Result<()> {
        let args = parse_args(&c2.args)?;
        let pipeline = Pipeline::from_args(&args.pipeline)?;
        let mut sources: Vec<Box<dyn Read + Send>> = Vec::new();
        for (i, x) in c2.inputs.iter().enumerate() {
            let seed = if c2.chunk == 0 { 0 } else { c2.chunk + i as u64 };
            sources.push(Box::new(ChunkReader::new(x.clone(), seed)));
        }
        let stream = pipeline.spawn_stream(sources)?;
        if c2.chunk % 3 == 2 {
            consume_adversarially(stream, Box::new(Sink { out: o2 }), c2.chunk)
        } else {
            crate::consume_stream(stream, Box::new(Sink { out: o2 }))
        }
    }));

    match r {
        Err(_) => Act::Panic(PANIC_MSG.with(|p| p.borrow().clone())),
        Ok(Err(e)) => Act::Err(format!("{e:#}")),
        Ok(Ok(())) => {
            if PANICS.load(Ordering::SeqCst) != panics {
                return Act::Panic(LAST_PANIC.lock().unwrap().clone());
            }
            let out = out.lock().unwrap().clone();
            let mut files = BTreeMap::new();
            for e in std::fs::read_dir(d.join("o")).unwrap().flatten() {
                let name = e.file_name().to_str().unwrap().to_string();
                files.insert(name, std::fs::read(e.path()).unwrap_or_default());
            }
            Act::Out { out, files }
        }
    }
}

// a consumer of the final stream that holds bytes back, asks for more, and consumes odd amounts; it also
// checks the documented contract of the byte-stream interface
fn consume_adversarially(stream: Box<dyn ByteStream>, drain: Box<dyn Write>, seed: u64) -> anyhow::Result<()> {
    let mut rng = Rng::new(seed ^ 0x55);
    let mut stream = stream;
    let mut drain = drain;
    let mut prev: Vec<u8> = Vec::new();
    let mut holds = 0;
    loop {
        let req = match rng.below(4) {
            0 => 1,
            1 => 1 + rng.below(40),
            2 => 1 + rng.below(400),
            _ => prev.len() + 1,
        };
        let (is_eof, bytes) = stream.fill_buf(req)?;
        assert!(is_eof || bytes >= req, "fill_buf({req}) returned {bytes} bytes without EOF");
        let slice = stream.as_slice();
        assert!(slice.len() >= bytes + crate::params::MARGIN_SIZE, "tail margin missing");
        assert!(bytes >= prev.len(), "unconsumed bytes lost");
        assert!(slice[..prev.len()] == prev[..], "unconsumed bytes changed");
        if is_eof && bytes == 0 {
            break;
        }
        let mut n = match rng.below(4) {
            0 => 0,
            1 => std::cmp::min(1, bytes),
            2 => rng.below(bytes + 1),
            _ => bytes,
        };
        if n == 0 {
            holds += 1;
            if holds > 6 {
                n = bytes;
            }
        }
        if n > 0 {
            holds = 0;
        }
        drain.write_all(&slice[..n])?;
        prev = slice[n..bytes].to_vec();
        stream.consume(n);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- oracle: expressions

// C-precedence recursive-descent evaluator over i128. The methods return None on a syntax error. The arithmetic goes on in
// wrapped 64 bits after an overflow (`over`), where no value is specified.
pub struct Ev<'a> {
    s: &'a [u8],
    i: usize,
    over: bool, // an intermediate value did not fit in 64 bits, or a shift count is out of range
    err: bool,  // an error is due: division by zero, or what `get` says
    get: &'a mut dyn FnMut(&str, Option<i128>) -> Got,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Got {
    Val(i128),
    Syntax,  // no such variable
    Error,   // an error at run time
    Unknown, // the value is not specified
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Value {
    Val(i128),
    Error,
    Unknown, // no value is specified, but a crash isn't a value
}

fn chk(x: i128) -> Option<i128> {
    if x >= i64::MIN as i128 && x <= i64::MAX as i128 {
        Some(x)
    } else {
        None
    }
}

impl<'a> Ev<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && b" \t\r\n".contains(&self.s[self.i]) {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            return true;
        }
        false
    }
    fn wrap(&mut self, x: i128) -> i128 {
        if chk(x).is_none() {
            self.over = true;
        }
        x as i64 as i128
    }
    fn bor(&mut self) -> Option<i128> {
        let mut x = self.bxor()?;
        while self.eat("|") {
            x |= self.bxor()?;
        }
        Some(x)
    }
    fn bxor(&mut self) -> Option<i128> {
        let mut x = self.band()?;
        while self.eat("^") {
            x ^= self.band()?;
        }
        Some(x)
    }
    fn band(&mut self) -> Option<i128> {
        let mut x = self.cmp()?;
        while self.eat("&") {
            x &= self.cmp()?;
        }
        Some(x)
    }
    fn cmp(&mut self) -> Option<i128> {
        let mut x = self.shift()?;
        loop {
            if self.eat("<=") {
                x = (x <= self.shift()?) as i128;
            } else if self.eat(">=") {
                x = (x >= self.shift()?) as i128;
            } else if self.eat("<") {
                x = (x < self.shift()?) as i128;
            } else if self.eat(">") {
                x = (x > self.shift()?) as i128;
            } else {
                return Some(x);
            }
        }
    }
    fn shift(&mut self) -> Option<i128> {
        let mut x = self.add()?;
        loop {
            let left = if self.eat("<<") {
                true
            } else if self.eat(">>") {
                false
            } else {
                return Some(x);
            };
            // a negative count shifts the other way
            let y = self.add()?;
            if !(-63..64).contains(&y) {
                self.over = true;
                continue;
            }
            x = if left == (y >= 0) { self.wrap(x << y.abs()) } else { x >> y.abs() };
        }
    }
    fn add(&mut self) -> Option<i128> {
        let mut x = self.mul()?;
        loop {
            if self.eat("+") {
                let y = self.mul()?;
                x = self.wrap(x + y);
            } else if self.eat("-") {
                let y = self.mul()?;
                x = self.wrap(x - y);
            } else {
                return Some(x);
            }
        }
    }
    fn mul(&mut self) -> Option<i128> {
        let mut x = self.unary()?;
        loop {
            if self.eat("*") {
                let y = self.unary()?;
                x = self.wrap(x * y);
            } else if self.eat("/") {
                let y = self.unary()?;
                x = if self.zero(y) { 0 } else { self.wrap(x / y) };
            } else if self.eat("%") {
                let y = self.unary()?;
                x = if self.zero(y) { 0 } else { x % y };
            } else {
                return Some(x);
            }
        }
    }
    fn zero(&mut self, y: i128) -> bool {
        if y == 0 && !self.over {
            self.err = true;
        }
        y == 0
    }
    fn unary(&mut self) -> Option<i128> {
        if self.eat("+") {
            return self.unary();
        }
        if self.eat("-") {
            let x = self.unary()?;
            return Some(self.wrap(-x));
        }
        if self.eat("~") {
            return Some(!self.unary()?);
        }
        self.atom()
    }
    fn got(&mut self, g: Got) -> Option<i128> {
        match g {
            Got::Val(x) => Some(x),
            Got::Syntax => None,
            Got::Error => {
                if !self.over {
                    self.err = true;
                }
                Some(0)
            }
            Got::Unknown => {
                self.over = true;
                Some(0)
            }
        }
    }
    fn atom(&mut self) -> Option<i128> {
        if self.eat("(") {
            let x = self.bor()?;
            if !self.eat(")") {
                return None;
            }
            return Some(x);
        }
        let c = self.peek();
        if c.is_ascii_digit() {
            let st = self.i;
            while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
                self.i += 1;
            }
            return parse_const(std::str::from_utf8(&self.s[st..self.i]).unwrap());
        }
        if c.is_ascii_alphabetic() {
            let st = self.i;
            while self.i < self.s.len() && self.s[self.i].is_ascii_alphanumeric() {
                self.i += 1;
            }
            let name = std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string();
            if self.eat("[") {
                let ix = self.bor()?;
                if !self.eat("]") {
                    return None;
                }
                let g = (self.get)(&name, Some(ix));
                return self.got(g);
            }
            let g = (self.get)(&name, None);
            return self.got(g);
        }
        None
    }
}

pub fn parse_const(t: &str) -> Option<i128> {
    // fillers are between digits
    let c = t.as_bytes();
    let first = if t.len() > 1 && c[0] == b'0' && c[1].is_ascii_alphabetic() { 2 } else { 0 };
    let hex = t.len() > 1 && c[1].to_ascii_lowercase() == b'x' && first == 2;
    for i in 0..c.len() {
        let digit = |j: usize| j >= first && j < c.len() && if hex { c[j].is_ascii_hexdigit() } else { c[j].is_ascii_digit() };
        if c[i] == b'_' && !(i > 0 && digit(i - 1) && digit(i + 1)) {
            return None;
        }
    }
    let t = t.replace('_', "");
    let (t, scale) = {
        let mut base = 1000i128;
        let hexlike = t.starts_with("0x") || t.starts_with("0X");
        let mut u = t.clone();
        if u.ends_with('i') {
            base = 1024;
            u.pop();
        }
        let last = u.chars().last()?;
        let n = match last {
            'k' | 'K' => 1,
            'm' | 'M' => 2,
            'g' | 'G' => 3,
            't' | 'T' => 4,
            'E' | 'e' if !hexlike => 6,
            _ => 0,
        };
        if n > 0 {
            u.pop();
            (u, base.pow(n))
        } else if base == 1024 {
            return None;
        } else {
            (t, 1)
        }
    };
    let l = t.to_ascii_lowercase();
    let (digits, radix) = if let Some(d) = l.strip_prefix("0x") {
        (d.to_string(), 16)
    } else if let Some(d) = l.strip_prefix("0b") {
        (d.to_string(), 2)
    } else if let Some(d) = l.strip_prefix("0o") {
        (d.to_string(), 8)
    } else if let Some(d) = l.strip_prefix("0d") {
        (d.to_string(), 10)
    } else if l.len() > 1 && l.starts_with('0') {
        (l[1..].to_string(), 8)
    } else {
        (l.clone(), 10)
    };
    if digits.is_empty() {
        return None;
    }
    let v = i128::from_str_radix(&digits, radix).ok()?;
    chk(v.checked_mul(scale)?)
}

pub fn eval_value(s: &str, get: &mut dyn FnMut(&str, Option<i128>) -> Got) -> Value {
    let mut e = Ev { s: s.as_bytes(), i: 0, over: false, err: false, get };
    let v = e.bor();
    e.ws();
    match v {
        None => Value::Error,
        _ if e.i != s.len() => Value::Error,
        _ if e.err => Value::Error,
        _ if e.over => Value::Unknown,
        Some(v) => Value::Val(v),
    }
}

pub fn eval_c(s: &str, get: &mut dyn FnMut(&str, Option<i128>) -> Option<i128>) -> Option<i128> {
    match eval_value(s, &mut |n, ix| get(n, ix).map_or(Got::Syntax, Got::Val)) {
        Value::Val(v) => Some(v),
        _ => None,
    }
}

fn syntax_ok(s: &str, get: &mut dyn FnMut(&str, Option<i128>) -> Got) -> bool {
    let mut e = Ev { s: s.as_bytes(), i: 0, over: false, err: false, get };
    let v = e.bor();
    e.ws();
    v.is_some() && e.i == s.len()
}

fn no_vars(_: &str, _: Option<i128>) -> Got {
    Got::Syntax
}

// (coef of s, coef of e, constant); None if not of the form c, s + c, or e + c
fn affine(s: &str) -> Option<(bool, i128)> {
    let mut at = |sv: i128, ev: i128| {
        eval_c(s, &mut |n, ix| match (n, ix) {
            ("s", None) => Some(sv),
            ("e", None) => Some(ev),
            _ => None,
        })
    };
    let k = at(0, 0)?;
    let (cs, ce) = (at(1000, 0)? - k, at(0, 1000)? - k);
    match (cs, ce) {
        (0, 0) | (1000, 0) => Some((false, k)),
        (0, 1000) => Some((true, k)),
        _ => None,
    }
}

type Rexpr = ((bool, i128), (bool, i128));

fn rexpr(s: &str) -> Option<Rexpr> {
    let (a, b) = s.split_once("..")?;
    let a = if a.trim().is_empty() { (false, 0) } else { affine(a)? };
    let b = if b.trim().is_empty() { (true, 0) } else { affine(b)? };
    Some((a, b))
}

fn rexprs(s: &str) -> Option<Vec<Rexpr>> {
    let s = s.strip_suffix(',').unwrap_or(s);
    s.split(',').map(rexpr).collect()
}

// maps [s, e) by the expression, clips it to [0, limit)
fn map_clip(x: &Rexpr, s: i128, e: i128, limit: i128) -> Option<(usize, usize)> {
    let p = |a: (bool, i128)| (if a.0 { e } else { s }) + a.1;
    let (a, b) = (p(x.0).clamp(0, limit), p(x.1).clamp(0, limit));
    if a < b {
        Some((a as usize, b as usize))
    } else {
        None
    }
}

// ---------------------------------------------------------------------------------------------- oracle: text

fn hexline(offset: usize, bytes: &[u8], cols: usize, dec: bool) -> Vec<u8> {
    let mut s = String::new();
    if dec {
        s.push_str(&format!("{} {} | ", offset, bytes.len()));
    } else {
        let mut w = 4;
        while bytes.len() >> (4 * w) != 0 {
            w += 2;
        }
        s.push_str(&format!("{:012x} {:0w$x} | ", offset & 0xffff_ffff_ffff, bytes.len(), w = w));
    }
    let cols = std::cmp::max(cols, bytes.len());
    for i in 0..cols {
        match bytes.get(i) {
            Some(x) => s.push_str(&format!("{x:02x} ")),
            None => s.push_str("   "),
        }
    }
    s.push_str("| ");
    for i in 0..cols {
        match bytes.get(i) {
            Some(&x) if (0x20..0x7f).contains(&x) => s.push(x as char),
            Some(_) => s.push('.'),
            None => s.push(' '),
        }
    }
    s.push('\n');
    s.into_bytes()
}

#[derive(Clone, Debug)]
pub struct Rec {
    offset: usize,
    len: usize,
    body: Vec<u8>,
}

enum Txt {
    Recs(Vec<Rec>),
    Bad(Vec<Rec>), // malformed, after these records: an error is the only acceptable outcome
    Unknown, // no meaning assigned by the documentation
}

// "offset length | array | mosaic" with only the parts README describes
fn parse_records(t: &[u8], gapless: bool, dec: bool) -> Txt {
    let mut v = Vec::new();
    for line in t.split(|&x| x == b'\n') {
        if line.is_empty() {
            continue;
        }
        let s = match std::str::from_utf8(line) {
            Ok(s) => s,
            Err(_) => return Txt::Unknown,
        };
        let mut parts = s.splitn(3, '|');
        let head = parts.next().unwrap();
        let body = parts.next();
        if !head.is_ascii() || !body.unwrap_or("").is_ascii() {
            return Txt::Unknown;
        }
        let f: Vec<&str> = head.split(' ').filter(|x| !x.is_empty()).collect();
        if head.starts_with(' ') && !gapless {
            return Txt::Unknown;
        }
        if f.len() < 2 && !gapless {
            return Txt::Bad(v);
        }
        if f.len() != 2 || head.contains(':') || head.contains('\t') {
            return Txt::Unknown;
        }
        let mut num = Vec::new();
        for x in &f {
            if !x.bytes().all(|c| if dec { c.is_ascii_digit() } else { c.is_ascii_hexdigit() }) {
                return if gapless { Txt::Unknown } else { Txt::Bad(v) };
            }
            if dec {
                // numbers that cannot be represented are never read as something else
                match x.parse::<usize>() {
                    Err(_) => return Txt::Bad(v),
                    Ok(n) if n >> 49 != 0 => return Txt::Unknown,
                    Ok(n) => num.push(n),
                }
                continue;
            }
            if x.len() > 15 {
                return Txt::Unknown;
            }
            num.push(usize::from_str_radix(x, 16).unwrap());
        }
        // exactly one blank between the fields is the documented layout
        if head.trim_end() != format!("{} {}", f[0], f[1]) {
            return Txt::Unknown;
        }
        let mut out = Vec::new();
        if body.is_none() && (dec || head.ends_with(' ')) {
            return Txt::Unknown;
        }
        if let Some(body) = body {
            if !body.starts_with(' ') {
                return Txt::Unknown;
            }
            if head != format!("{} {} ", f[0], f[1]) {
                return Txt::Unknown;
            }
            for x in body.split(' ').filter(|x| !x.is_empty()) {
                if x.len() == 1 || !x.bytes().all(|c| c.is_ascii_hexdigit()) {
                    if x.len() == 2 && body.trim_end().len() <= body.len() && well_placed(body) {
                        return Txt::Bad(v);
                    }
                    return Txt::Unknown;
                }
                if x.len() != 2 {
                    return Txt::Unknown;
                }
                out.push(u8::from_str_radix(x, 16).unwrap());
            }
            let canon: Vec<String> = out.iter().map(|x| format!("{x:02x}")).collect();
            let canon = canon.join(" ");
            let b = body.strip_prefix(' ').unwrap_or(body);
            if !b.trim_end_matches(' ').eq_ignore_ascii_case(&canon) {
                return Txt::Unknown;
            }
        }
        v.push(Rec { offset: num[0], len: num[1], body: out });
    }
    Txt::Recs(v)
}

// every third character of the (blank-stripped) array field is a blank
fn well_placed(body: &str) -> bool {
    let b = body.strip_prefix(' ').unwrap_or(body).trim_end_matches(' ').as_bytes();
    b.len() % 3 == 2 && b.iter().enumerate().all(|(i, &c)| (i % 3 == 2) == (c == b' '))
}

fn recs_sorted(r: &[Rec]) -> bool {
    let mut tail = 0;
    for x in r {
        if x.offset < tail {
            return false;
        }
        tail = x.offset + x.len;
    }
    true
}

// the records after these are read for sure: none of them reaches the end of the stream
fn reached(r: &[Rec], len: usize) -> bool {
    recs_sorted(r) && r.iter().all(|x| x.offset + x.len < len)
}

// replaces [offset, offset + len) of `src` by the array; None = no meaning assigned
fn apply_patch(src: &[u8], recs: &[Rec]) -> Option<Vec<u8>> {
    if !recs_sorted(recs) {
        return None;
    }
    let mut out = Vec::new();
    let mut pos = 0;
    for r in recs {
        if r.offset > src.len() {
            return None;
        }
        out.extend_from_slice(&src[pos..r.offset]);
        out.extend_from_slice(&r.body);
        pos = std::cmp::min(r.offset + r.len, src.len());
    }
    out.extend_from_slice(&src[pos..]);
    Some(out)
}

// ---------------------------------------------------------------------------------------------- oracle: pipeline

struct Fmt {
    bin: bool,
    dec: bool,
}

fn fmt_of(s: &str) -> Option<Fmt> {
    match s {
        "b" | "nnb" => Some(Fmt { bin: true, dec: false }),
        "x" | "xxx" | "nnx" => Some(Fmt { bin: false, dec: false }),
        "d" | "ddx" => Some(Fmt { bin: false, dec: true }),
        _ => None,
    }
}

fn uint(s: &str) -> Option<usize> {
    let v = eval_c(s, &mut |_, _| None)?;
    if v < 0 {
        return None;
    }
    Some(v as usize)
}

// the byte stream after Stage 2
fn oracle_bytes(c: &Case) -> Result<Vec<u8>, Exp> {
    let sk = |x: Option<usize>| x.ok_or(Exp::Skip);
    let filler = match c.opt("--filler") {
        Some(s) => {
            let v = eval_c(s, &mut |_, _| None).ok_or(Exp::Skip)?;
            if !(0..256).contains(&v) {
                return Err(Exp::Err);
            }
            v as u8
        }
        None => 0,
    };
    let inplace = c.args.iter().any(|x| x == "-i");
    let n_mode = inplace as usize + c.opt("-c").is_some() as usize + c.opt("-z").is_some() as usize;
    if n_mode > 1 {
        return Err(Exp::Err);
    }
    let n_slicer = ["-w", "-d", "-k", "-r", "-g"].iter().filter(|x| c.opt(x).is_some()).count();
    if n_slicer > 1 {
        return Err(Exp::Err);
    }
    if c.opt("-o").is_some() && c.opt("-P").is_some() {
        return Err(Exp::Err);
    }
    let word = match (c.opt("-c"), c.opt("-z")) {
        (Some(x), None) => sk(uint(x))?,
        (None, Some(x)) => sk(uint(x))?,
        _ => 1,
    };
    if word == 0 {
        return Err(Exp::Err);
    }
    // input format
    let mut files = Vec::new();
    for x in &c.inputs {
        let raw = match c.opt("-F") {
            None | Some("b") => x.clone(),
            Some(f @ ("x" | "d")) => match parse_records(x, false, f == "d") {
                Txt::Recs(r) => {
                    if !recs_sorted(&r) {
                        // overlapping records are an error if they are read at all
                        return Err(if c.opt("-z").is_some() || c.opt("-n").is_some() { Exp::Skip } else { Exp::Err });
                    }
                    let mut v = Vec::new();
                    let mut pos = 0;
                    for r in &r {
                        if r.offset - pos > 100_000 {
                            return Err(Exp::Skip);
                        }
                        v.resize(v.len() + r.offset - pos, filler);
                        v.extend_from_slice(&r.body);
                        pos = r.offset + r.len;
                    }
                    v
                }
                Txt::Bad(_) => return Err(Exp::Err),
                Txt::Unknown => return Err(Exp::Skip),
            },
            Some("nnx") => match parse_records(x, true, false) {
                Txt::Recs(r) => r.iter().flat_map(|x| x.body.clone()).collect(),
                Txt::Bad(_) => return Err(Exp::Err),
                Txt::Unknown => return Err(Exp::Skip),
            },
            _ => return Err(Exp::Skip),
        };
        files.push(raw);
    }
    let pad = |v: &Vec<u8>| {
        let mut v = v.clone();
        while v.len() % word != 0 {
            v.push(filler);
        }
        v
    };
    let mut b: Vec<u8> = Vec::new();
    if c.opt("-z").is_some() {
        // N bytes from each file in turn, as many turns as the shortest file gives
        let turns = files.iter().map(|x| (x.len() + word - 1) / word).min().unwrap_or(0);
        let files: Vec<_> = files.iter().map(pad).collect();
        for t in 0..turns {
            for f in &files {
                b.extend_from_slice(&f[t * word..(t + 1) * word]);
            }
        }
    } else {
        for f in &files {
            b.extend_from_slice(&pad(f));
        }
    }
    // cut
    if let Some(s) = c.opt("-n") {
        let r = rexprs(s).ok_or(Exp::Skip)?;
        let mut keep = vec![false; b.len()];
        for x in &r {
            if let Some((s, e)) = map_clip(x, 0, b.len() as i128, b.len() as i128) {
                keep[s..e].iter_mut().for_each(|x| *x = true);
            }
        }
        b = b.iter().zip(&keep).filter(|(_, k)| **k).map(|(x, _)| *x).collect();
    }
    // pad
    if let Some(s) = c.opt("-a") {
        let (n, m) = s.split_once(',').ok_or(Exp::Skip)?;
        let (n, m) = (sk(uint(n))?, sk(uint(m))?);
        let mut v = vec![filler; n];
        v.extend_from_slice(&b);
        v.resize(v.len() + m, filler);
        b = v;
    }
    // patch
    if c.opt("-p").is_some() {
        match parse_records(c.patch.as_ref().unwrap(), false, false) {
            Txt::Recs(r) if !recs_sorted(&r) => {
                // overlapping records are an error if they are read at all
                let k = (0..r.len()).find(|&k| !recs_sorted(&r[..k + 1])).unwrap();
                return Err(if reached(&r[..k], b.len()) { Exp::Err } else { Exp::Skip });
            }
            Txt::Recs(r) => b = apply_patch(&b, &r).ok_or(Exp::Skip)?,
            Txt::Bad(r) if reached(&r, b.len()) => return Err(Exp::Err),
            Txt::Bad(_) | Txt::Unknown => return Err(Exp::Skip),
        }
    }
    Ok(b)
}

type Slices = Vec<(usize, usize)>;

fn oracle_slices(c: &Case, b: &[u8]) -> Result<(Slices, usize, bool), Exp> {
    let len = b.len();
    let ilen = len as i128;
    let mut cols = 0;
    let mut unordered = false;
    let mut v: Slices = Vec::new();
    if let Some(s) = c.opt("-d") {
        let mut pat = Vec::new();
        for x in s.split(' ').filter(|x| !x.is_empty()) {
            if x.len() != 2 {
                return Err(Exp::Skip);
            }
            pat.push(u8::from_str_radix(x, 16).map_err(|_| Exp::Err)?);
        }
        if pat.is_empty() || pat.len() > 63 {
            return Err(Exp::Skip);
        }
        // a pattern that overlaps itself has two readings; the leftmost non-overlapping one is the one
        // the existing search has within a block
        let mut i = 0;
        while i + pat.len() <= len {
            if b[i..i + pat.len()] == pat[..] {
                v.push((i, i + pat.len()));
                i += pat.len();
            } else {
                i += 1;
            }
        }
    } else if let Some(s) = c.opt("-k") {
        let s = s.strip_suffix(',').unwrap_or(s);
        let exprs: Vec<&str> = s.split(',').collect();
        let mut syn = |n: &str, ix: Option<i128>| if ["b", "h", "i", "l"].contains(&n) && ix.is_some() { Got::Unknown } else { Got::Syntax };
        if !exprs.iter().all(|e| syntax_ok(e, &mut syn)) {
            return Err(Exp::Err);
        }
        let mut pos = 0;
        while pos < len {
            let mut spans = Vec::new();
            for e in &exprs {
                let val = eval_value(e, &mut |n, ix| {
                    let w: usize = match n {
                        "b" => 1,
                        "h" => 2,
                        "i" => 4,
                        "l" => 8,
                        _ => return Got::Syntax,
                    };
                    let Some(ix) = ix else { return Got::Syntax };
                    if ix < 0 {
                        return Got::Error;
                    }
                    let o = pos as i128 + ix * w as i128;
                    if o + w as i128 > len as i128 {
                        return Got::Unknown; // beyond the end of the stream: not specified
                    }
                    let o = o as usize;
                    let mut x = 0i128;
                    for j in (0..w).rev() {
                        x = (x << 8) | b[o + j] as i128;
                    }
                    if x >> (8 * w - 1) != 0 {
                        x -= 1 << (8 * w);
                    }
                    Got::Val(x)
                });
                match val {
                    Value::Unknown => return Err(Exp::NoPanic),
                    Value::Error => return Err(Exp::Err),
                    Value::Val(x) if x <= 0 => return Err(Exp::Err),
                    Value::Val(x) => spans.push(usize::try_from(x).unwrap().min(1 << 62)),
                }
            }
            for s in spans {
                if pos < len {
                    v.push((pos, std::cmp::min(pos.saturating_add(s), len)));
                }
                pos = pos.saturating_add(s);
            }
        }
    } else if let Some(s) = c.opt("-r") {
        for x in &rexprs(s).ok_or(Exp::Skip)? {
            if let Some(x) = map_clip(x, 0, ilen, ilen) {
                v.push(x);
            }
        }
        v.sort();
        v.dedup();
    } else if c.opt("-g").is_some() {
        match parse_records(c.guide.as_ref().unwrap(), false, false) {
            Txt::Recs(r) => {
                let mut prev = 0;
                for x in &r {
                    if x.offset < prev {
                        return Err(Exp::Skip);
                    }
                    prev = x.offset;
                    // a record may name an empty slice, but none at the end of the stream
                    if x.offset < len {
                        v.push((x.offset, std::cmp::min(x.offset + x.len, len)));
                    }
                }
                let mut w = v.clone();
                w.sort();
                if w != v {
                    return Err(Exp::Skip);
                }
            }
            Txt::Bad(r) if reached(&r, b.len()) => return Err(Exp::Err),
            Txt::Bad(_) | Txt::Unknown => return Err(Exp::Skip),
        }
    } else {
        let s = c.opt("-w").unwrap_or("16");
        let (n, x) = match s.split_once(',') {
            Some((n, x)) => (n, rexpr(x).ok_or(Exp::Skip)?),
            None => (s, rexpr("..").unwrap()),
        };
        let n = uint(n).ok_or(Exp::Skip)?;
        let p = |a: (bool, i128)| (if a.0 { n as i128 } else { 0 }) + a.1;
        if n == 0 || p(x.0) >= p(x.1) {
            return Err(Exp::Err);
        }
        cols = (p(x.1) - p(x.0)) as usize;
        let mut base = 0;
        while base < len {
            if let Some(x) = map_clip(&x, base as i128, (base + n) as i128, ilen) {
                v.push(x);
            }
            base += n;
        }
    }
    // regex
    if let Some(s) = c.opt("-e") {
        let re = regex::bytes::Regex::new(s).map_err(|_| Exp::Err)?;
        let mut w: Slices = Vec::new();
        for &(s, e) in &v {
            w.extend(re.find_iter(&b[s..e]).map(|m| (s + m.start(), s + m.end())));
        }
        if v.windows(2).any(|x| x[0].1 > x[1].0) {
            unordered = false; // README: sorted by (start, end)
        }
        w.sort();
        v = w;
    }
    // invert
    if let Some(s) = c.opt("-v") {
        let r = rexprs(s).ok_or(Exp::Skip)?;
        // the gaps between the slices in the order of their starts (an empty slice splits the gap that it is in)
        let mut t = v.clone();
        t.sort();
        t.push((len, len));
        let mut w = Vec::new();
        let mut prev = 0;
        for &(s, e) in &t {
            if prev < s {
                for x in &r {
                    w.extend(map_clip(x, prev as i128, s as i128, ilen));
                }
            }
            prev = std::cmp::max(prev, e);
        }
        w.sort();
        v = w;
        unordered = false;
    }
    // extend
    if let Some(s) = c.opt("-x") {
        let r = rexprs(s).ok_or(Exp::Skip)?;
        let mut w = Vec::new();
        for &(s, e) in &v {
            for x in &r {
                w.extend(map_clip(x, s as i128, e as i128, ilen));
            }
        }
        w.sort();
        v = w;
    }
    // merge
    if let Some(s) = c.opt("-m") {
        let n = uint(s).ok_or(Exp::Skip)?;
        let mut w: Slices = Vec::new();
        for &(s, e) in &v {
            match w.last_mut() {
                Some(a) if a.1.saturating_add(n) >= s => a.1 = std::cmp::max(a.1, e),
                _ => w.push((s, e)),
            }
        }
        v = w;
        unordered = false;
    }
    // lines
    if let Some(s) = c.opt("-l") {
        let r = rexprs(s).ok_or(Exp::Skip)?;
        if unordered {
            return Err(Exp::Skip);
        }
        let n = v.len();
        let mut keep = vec![false; n];
        for x in &r {
            if let Some((s, e)) = map_clip(x, 0, n as i128, n as i128) {
                keep[s..e].iter_mut().for_each(|x| *x = true);
            }
        }
        v = v.iter().zip(&keep).filter(|(_, k)| **k).map(|(x, _)| *x).collect();
    }
    Ok((v, cols, unordered))
}

// [[fill]align][+]['#']['0'][width][type] of std::fmt
fn render_num(v: i64, spec: &str) -> Result<String, Exp> {
    let c: Vec<char> = spec.chars().collect();
    let mut i = 0;
    let is_align = |x: Option<&char>| matches!(x, Some('<' | '^' | '>'));
    let (mut fill, mut align) = (' ', '>');
    if is_align(c.get(1)) {
        fill = c[0];
        align = c[1];
        i = 2;
    } else if is_align(c.first()) {
        align = c[0];
        i = 1;
    }
    let mut flag = |x: char| {
        let t = c.get(i) == Some(&x);
        i += t as usize;
        t
    };
    let plus = flag('+');
    let alt = flag('#');
    let zero = flag('0');
    let mut width = String::new();
    while i < c.len() && c[i].is_ascii_digit() {
        width.push(c[i]);
        i += 1;
    }
    let width: usize = if width.is_empty() { 0 } else { width.parse().map_err(|_| Exp::Skip)? };
    if i < c.len() && c[i] == '.' || width > 4096 {
        return Err(Exp::Skip); // no precision for integers
    }
    if plus && v == 0 || (plus || v < 0) && align != '>' || align == '^' {
        return Err(Exp::NoPanic); // num-runtime-fmt differs from std::fmt; see DESIGN.md
    }
    let (neg, mag, prefix) = match c[i..] {
        [] | ['d'] => (v < 0, format!("{}", v.unsigned_abs()), ""),
        ['x'] => (false, format!("{v:x}"), "0x"),
        ['X'] => (false, format!("{v:X}"), "0x"),
        ['o'] => (false, format!("{v:o}"), "0o"),
        ['b'] => (false, format!("{v:b}"), "0b"),
        _ => return Err(Exp::Err),
    };
    let head = format!("{}{}", if neg { "-" } else if plus { "+" } else { "" }, if alt { prefix } else { "" });
    let n = width.saturating_sub(head.len() + mag.len());
    if zero {
        return Ok(format!("{head}{}{mag}", "0".repeat(n)));
    }
    let (x, y) = match align {
        '<' => (0, n),
        '^' => (n / 2, n - n / 2),
        _ => (n, 0),
    };
    let pad = |n: usize| fill.to_string().repeat(n);
    Ok(format!("{}{head}{mag}{}", pad(x), pad(y)))
}

fn render(t: &str, n: usize, l: usize) -> Result<String, Exp> {
    let mut s = String::new();
    let mut rest = t;
    while let Some(i) = rest.find('{') {
        let Some(k) = rest[i..].find('}') else { break };
        s.push_str(&rest[..i]);
        let inner = &rest[i + 1..i + k];
        let (name, spec) = match inner.split_once(':') {
            Some((a, b)) => (a, b),
            None => (inner, ""),
        };
        let paren = name.len() >= 2 && name.starts_with('(') && name.ends_with(')');
        if name.is_empty() || !paren && !name.chars().all(|c| c.is_ascii_alphabetic()) {
            return Err(Exp::Err);
        }
        let v = eval_value(name, &mut |x, ix| match (x, ix) {
            ("n", None) => Got::Val(n as i128),
            ("l", None) => Got::Val(l as i128),
            _ => Got::Syntax,
        });
        match v {
            Value::Val(v) => s.push_str(&render_num(v as i64, spec)?),
            Value::Error => return Err(Exp::Err),
            Value::Unknown => return Err(Exp::NoPanic),
        }
        rest = &rest[i + k + 1..];
    }
    s.push_str(rest);
    Ok(s)
}

pub fn oracle(c: &Case) -> Exp {
    match oracle_impl(c) {
        Ok(x) => x,
        Err(x) => x,
    }
}

fn oracle_impl(c: &Case) -> Result<Exp, Exp> {
    let b = oracle_bytes(c)?;
    let (v, cols, unordered) = oracle_slices(c, &b)?;
    let inplace = c.args.iter().any(|x| x == "-i");

    let (f, cols) = match c.opt("-f") {
        Some(s) => (fmt_of(s).ok_or(Exp::Skip)?, 16),
        None if inplace && c.opt("-P").is_none() && matches!(c.opt("-o"), None | Some("") | Some("-")) => {
            (Fmt { bin: true, dec: false }, 0)
        }
        None => (Fmt { bin: false, dec: false }, cols),
    };
    let line = |s: usize, e: usize| if f.bin { b[s..e].to_vec() } else { hexline(s, &b[s..e], cols, f.dec) };

    if let Some(cmd) = c.opt("-P") {
        if c.opt("-f").is_some() || unordered {
            return Err(Exp::Skip); // the documentation and the code's choice of the format differ; see DESIGN.md
        }
        // the command is one of a fixed set of stream editors whose effect the driver knows
        let mut recs = Vec::new();
        for &(s, e) in &v {
            recs.push((s, e, b[s..e].to_vec()));
        }
        let recs: Vec<Rec> = match cmd {
            "cat" => recs.into_iter().map(|(s, e, b)| Rec { offset: s, len: e - s, body: b }).collect(),
            "cat > /dev/null" => Vec::new(),
            // deletes every array
            "sed 's/|.*/| /'" => recs.into_iter().map(|(s, e, _)| Rec { offset: s, len: e - s, body: vec![] }).collect(),
            // replaces the array by the two bytes 4f 4f
            "awk '{ printf \"%s %s | 4f 4f\\n\", $1, $2 }'" => {
                recs.into_iter().map(|(s, e, _)| Rec { offset: s, len: e - s, body: vec![0x4f, 0x4f] }).collect()
            }
            // keeps only every other record, doubled in length
            "awk 'NR % 2 == 1 { printf \"%s %s | aa bb cc\\n\", $1, $2 }'" => recs
                .into_iter()
                .enumerate()
                .filter(|(i, _)| i % 2 == 0)
                .map(|(_, (s, e, _))| Rec { offset: s, len: e - s, body: vec![0xaa, 0xbb, 0xcc] })
                .collect(),
            _ => return Err(Exp::Skip),
        };
        let out = apply_patch(&b, &recs).ok_or(Exp::Skip)?;
        return Ok(Exp::Out { out, files: BTreeMap::new(), unordered: false });
    }

    let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut out = Vec::new();
    if let Some(p) = &c.pre {
        files.insert("out".to_string(), p.clone());
    }
    match c.opt("-o") {
        None | Some("") | Some("-") => {
            for &(s, e) in &v {
                out.extend_from_slice(&line(s, e));
            }
        }
        Some(t) => {
            let t = t.strip_prefix("{DIR}/").ok_or(Exp::Skip)?;
            if unordered {
                return Err(Exp::Skip);
            }
            if v.is_empty() {
                // only the syntax matters, and a division by zero isn't reached
                if render(t, 0, 0).is_err() {
                    return Err(Exp::NoPanic);
                }
            }
            let mut seen = std::collections::HashSet::new();
            if !t.contains('{') || !t[t.find('{').unwrap()..].contains('}') {
                files.insert(t.to_string(), Vec::new()); // opened (and cleared) regardless of the slices
                seen.insert(t.to_string());
            }
            for (i, &(s, e)) in v.iter().enumerate() {
                let name = render(t, s, i)?;
                if seen.insert(name.clone()) {
                    files.insert(name.clone(), Vec::new());
                }
                files.get_mut(&name).unwrap().extend_from_slice(&line(s, e));
            }
        }
    }
    Ok(Exp::Out { out, files, unordered })
}

// ---------------------------------------------------------------------------------------------- comparison

pub fn judge(exp: &Exp, act: &Act) -> Option<String> {
    match (exp, act) {
        (Exp::Skip, _) => None,
        (Exp::NoPanic, Act::Panic(e)) => Some(format!("panic: {}", e.chars().take(200).collect::<String>().replace('\n', " "))),
        (Exp::NoPanic, _) => None,
        (Exp::Err, Act::Err(_)) => None,
        (Exp::Err, a) => Some(format!("an error was expected; got {}", brief(a))),
        (Exp::Out { out, files, unordered }, Act::Out { out: o, files: fs }) => {
            let same = if *unordered {
                let srt = |x: &[u8]| {
                    let mut v: Vec<Vec<u8>> = x.split(|c| *c == b'\n').map(|x| x.to_vec()).collect();
                    v.sort();
                    v
                };
                srt(out) == srt(o)
            } else {
                out == o
            };
            if !same {
                let i = out.iter().zip(o.iter()).position(|(a, b)| a != b).unwrap_or(std::cmp::min(out.len(), o.len()));
                return Some(format!("output differs at byte {i} (expected {} bytes, got {})", out.len(), o.len()));
            }
            if files != fs {
                return Some(format!(
                    "files differ: expected {:?}, got {:?}",
                    files.iter().map(|(k, v)| (k.clone(), v.len())).collect::<Vec<_>>(),
                    fs.iter().map(|(k, v)| (k.clone(), v.len())).collect::<Vec<_>>()
                ));
            }
            None
        }
        (Exp::Out { .. }, a) => Some(format!("output was expected; got {}", brief(a))),
    }
}

fn brief(a: &Act) -> String {
    match a {
        Act::Out { out, .. } => format!("{} bytes of output", out.len()),
        Act::Err(e) => format!("error: {}", e.chars().take(200).collect::<String>().replace('\n', " ")),
        Act::Panic(e) => format!("panic: {}", e.chars().take(200).collect::<String>().replace('\n', " ")),
    }
}

// ---------------------------------------------------------------------------------------------- generators

fn gen_len(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => r.below(4),
        1..=3 => r.below(60),
        4 | 5 => r.below(200),
        6 => (145 * (1 + r.below(4)) + r.below(7)).saturating_sub(3),
        7 => (29 * (1 + r.below(20)) + r.below(5)).saturating_sub(2),
        8 => r.below(700),
        _ => r.below(1500),
    }
}

fn gen_data(r: &mut Rng, len: usize) -> Vec<u8> {
    let style = r.below(5);
    let period = 1 + r.below(9);
    let mut v: Vec<u8> = Vec::with_capacity(len);
    for i in 0..len {
        let x = match style {
            0 => r.below(256) as u8,
            1 => b"ab"[r.below(2)],
            2 => b"abcd \n|0"[r.below(8)],
            3 => 0x20 + r.below(96) as u8,
            _ => {
                if i >= period && !r.chance(1, 12) {
                    v[i - period]
                } else {
                    b'a' + r.below(3) as u8
                }
            }
        };
        v.push(x);
    }
    v
}

fn gen_input(r: &mut Rng) -> Vec<u8> {
    let l = gen_len(r);
    gen_data(r, l)
}

fn gen_k(r: &mut Rng, len: usize) -> i64 {
    match r.below(6) {
        0 => r.range(0, 3),
        1 | 2 => r.range(0, 12),
        3 => r.range(0, len as i64 + 3),
        4 => (len as i64 + r.range(-3, 3)).max(0),
        _ => r.range(0, 200),
    }
}

fn spell(r: &mut Rng, k: i64) -> String {
    match r.below(12) {
        0 => format!("0x{k:x}"),
        1 => format!("0b{k:b}"),
        2 => format!("({} + {})", k / 2, k - k / 2),
        3 if k % 4 == 0 => format!("{}*4", k / 4),
        4 if k > 0 => format!("0o{k:o}"),
        _ => format!("{k}"),
    }
}

// one anchor expression; `neg` allows positions before the anchor
fn gen_anchor(r: &mut Rng, len: usize) -> String {
    let k = gen_k(r, len);
    let t = spell(r, k);
    let sp = if r.chance(1, 3) { " " } else { "" };
    match r.below(9) {
        0 => String::new(),
        1 | 2 => t,
        3 => "s".to_string(),
        4 => "e".to_string(),
        5 => format!("s{sp}+{sp}{t}"),
        6 => format!("s{sp}-{sp}{t}"),
        7 => format!("e{sp}+{sp}{t}"),
        _ => format!("e{sp}-{sp}{t}"),
    }
}

fn gen_range1(r: &mut Rng, len: usize) -> String {
    for _ in 0..4 {
        let s = format!("{}..{}", gen_anchor(r, len), gen_anchor(r, len));
        // prefer non-empty ranges
        if let Some(x) = rexpr(&s) {
            if map_clip(&x, 0, len as i128, len as i128).is_some() || r.chance(1, 6) {
                return s;
            }
        }
    }
    "..".to_string()
}

fn gen_ranges(r: &mut Rng, len: usize, max: usize) -> String {
    if max >= 3 && r.chance(1, 5) {
        // ranges found at the head of the stream along with ones that wait for its end
        let a = r.below(1 + len / 4);
        let b = a + 1 + r.below(1 + len / 2);
        let mut v = vec![format!("{a}..{b}"), format!("e-{}..s+{}", r.below(1 + len / 2), r.below(1 + len))];
        if r.chance(1, 3) {
            v.push(gen_range1(r, len));
        }
        if r.chance(1, 2) {
            v.reverse();
        }
        return v.join(",");
    }
    let n = 1 + r.below(max);
    let v: Vec<String> = (0..n).map(|_| gen_range1(r, len)).collect();
    v.join(",")
}

// a range expression for mapping slices of about `len` bytes
fn gen_maps(r: &mut Rng, len: usize, max: usize) -> String {
    let n = 1 + r.below(max);
    let v: Vec<String> = (0..n)
        .map(|_| match r.below(5) {
            0 => "..".to_string(),
            1 => format!("s-{}..e+{}", r.below(8), r.below(8)),
            2 => format!("s+{}..e-{}", r.below(4), r.below(4)),
            3 => format!("e-{}..e+{}", r.below(6), r.below(40)),
            _ => gen_range1(r, len),
        })
        .collect();
    v.join(",")
}

fn ascend(r: &mut Rng, limit: usize, n: usize) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut pos = 0;
    for _ in 0..n {
        let gap = match r.below(4) {
            0 => 0,
            1 => r.below(5),
            2 => r.below(30),
            _ => r.below(1 + limit / 3),
        };
        let len = match r.below(5) {
            0 => 0,
            1 => 1 + r.below(3),
            2 => 16,
            3 => r.below(40),
            _ => r.below(1 + limit / 2),
        };
        let o = pos + gap;
        if o > limit {
            break;
        }
        v.push((o, len));
        pos = o + len;
    }
    v
}

fn gen_record(r: &mut Rng, offset: usize, len: usize, body: Option<&[u8]>) -> String {
    let w = *r.pick(&[1usize, 2, 8, 12, 12, 12]);
    let lw = *r.pick(&[1usize, 2, 4, 4, 6]);
    let up = r.chance(1, 5);
    let num = |x: usize, w: usize| if up { format!("{x:0w$X}") } else { format!("{x:0w$x}") };
    let mut s = format!("{} {}", num(offset, w), num(len, lw));
    match body {
        None => {
            if r.chance(1, 3) {
                s.push_str(" | ");
            }
        }
        Some(b) => {
            s.push_str(" | ");
            let v: Vec<String> = b.iter().map(|x| if up { format!("{x:02X}") } else { format!("{x:02x}") }).collect();
            s.push_str(&v.join(" "));
            match r.below(5) {
                0 => {}
                1 => s.push_str(&" ".repeat(r.below(60))),
                2 => s.push_str(" | "),
                3 => {
                    s.push_str(&" ".repeat(1 + r.below(40)));
                    s.push_str("| ");
                    for x in b {
                        s.push(if (0x20..0x7f).contains(x) { *x as char } else { '.' });
                    }
                }
                _ => {
                    s.push_str(" | ");
                    s.push_str(&"|zz 0|".repeat(r.below(12)));
                }
            }
        }
    }
    s
}

fn gen_records(r: &mut Rng, limit: usize, body: bool, nmax: usize) -> Vec<u8> {
    let n = r.below(nmax + 1);
    let v = ascend(r, limit, n);
    let mut s = String::new();
    let m = v.len();
    for (i, (o, l)) in v.into_iter().enumerate() {
        let b = if !body || r.chance(1, 5) {
            None
        } else {
            let bl = match r.below(4) {
                0 => l,
                1 => r.below(5),
                2 => r.below(100),
                _ => (l + r.below(5)).saturating_sub(2),
            };
            Some(gen_data(r, std::cmp::min(bl, 300)))
        };
        s.push_str(&gen_record(r, o, l, b.as_deref()));
        if i + 1 < m || r.chance(4, 5) {
            s.push('\n');
        }
    }
    s.into_bytes()
}

// the same records with decimal heads; now and then a number is too large to be represented, or starts with zeros
fn dec_heads(r: &mut Rng, t: &[u8]) -> Vec<u8> {
    let t = String::from_utf8(t.to_vec()).unwrap();
    let mut out = String::new();
    for line in t.split_inclusive('\n') {
        let f: Vec<&str> = line.splitn(3, ' ').collect();
        let n = |x: &str| usize::from_str_radix(x.trim_end(), 16).ok();
        match (f.first().and_then(|x| n(x)), f.get(1).and_then(|x| n(x)), f.len()) {
            (Some(a), Some(b), 3) => {
                let (mut a, b) = (a.to_string(), b.to_string());
                match r.below(40) {
                    0 => a = format!("{}{}", 1 + r.below(99), a.repeat(1 + 19 / a.len())),
                    1 => a = (u64::MAX as u128 + 1 + r.below(70) as u128).to_string(),
                    2..=9 => a = format!("{}{}", "0".repeat(r.below(24)), a),
                    _ => {}
                }
                out.push_str(&format!("{a} {b} {}", f[2]));
            }
            _ => out.push_str(line),
        }
    }
    out.into_bytes()
}

// records that overlap by a few bytes, touch, or go backwards
fn gen_touching(r: &mut Rng) -> Vec<u8> {
    let mut t = String::new();
    let mut pos: i64 = r.range(0, 20);
    for _ in 0..2 + r.below(4) {
        let n = r.below(6);
        let b = gen_data(r, n);
        let b = if r.chance(1, 8) { None } else { Some(&b[..]) };
        t.push_str(&gen_record(r, pos as usize, n, b));
        t.push('\n');
        pos = (pos + n as i64 + if r.chance(1, 3) { r.range(-2, 3) } else { r.range(0, 3) }).max(0);
    }
    t.into_bytes()
}

fn gen_pattern(r: &mut Rng, data: &[u8]) -> String {
    let n = *r.pick(&[1usize, 1, 1, 2, 2, 3, 3, 4, 5, 8, 17, 40, 63]);
    let mut p = Vec::new();
    if data.len() > n && r.chance(9, 10) {
        let o = r.below(data.len() - n);
        p.extend_from_slice(&data[o..o + n]);
    } else {
        for _ in 0..n {
            p.push(r.below(256) as u8);
        }
    }
    let v: Vec<String> = p.iter().map(|x| format!("{x:02x}")).collect();
    v.join(" ")
}

fn push(c: &mut Case, k: &str, v: &str) {
    c.args.push(k.to_string());
    c.args.push(v.to_string());
}

fn gen_walk(r: &mut Rng) -> String {
    let one = |r: &mut Rng| -> String {
        let f = format!("{}[{}]", r.pick(&["b", "b", "b", "h", "i", "l"]), r.below(3));
        match r.below(8) {
            0 | 1 => format!("{}", 1 + r.below(9)),
            2 => format!("{}", 1 + r.below(300)),
            3 => format!("({f} & 0x1f) + 1"),
            4 => format!("({f} & 7) * 3 + 2"),
            5 => format!("1 + ({f} & 0x3f)"),
            6 => format!("{} + 2 * ({f} & 15)", 1 + r.below(5)),
            _ => format!("(({f} >> 1) & 0xf) + {}", 1 + r.below(4)),
        }
    };
    let n = *r.pick(&[1usize, 1, 1, 2, 3]);
    let v: Vec<String> = (0..n).map(|_| one(r)).collect();
    v.join(",")
}

fn gen_slicer(r: &mut Rng, c: &mut Case, len: usize) {
    match r.below(6) {
        0 => {
            let w = 1 + r.below(30);
            if r.chance(1, 2) {
                push(c, "-w", &format!("{w}"));
            } else {
                let m = gen_maps(r, w, 1);
                push(c, "-w", &format!("{w},{m}"));
            }
        }
        1 => {
            let d = c.inputs.first().cloned().unwrap_or_default();
            let p = gen_pattern(r, &d);
            push(c, "-d", &p);
        }
        2 => {
            let w = gen_walk(r);
            push(c, "-k", &w);
        }
        3 => {
            let x = gen_ranges(r, len, 4);
            push(c, "-r", &x);
        }
        4 => {
            c.guide = Some(gen_guide(r, len));
            push(c, "-g", "{GUIDE}");
        }
        _ => {
            if r.chance(1, 2) {
                let w = 1 + r.below(40);
                push(c, "-w", &format!("{w}"));
            }
        }
    }
}

fn gen_guide(r: &mut Rng, limit: usize) -> Vec<u8> {
    let n = r.below(8);
    let empty = r.chance(1, 4);
    let mut s = String::new();
    let mut pos = 0;
    let mut tail = 0;
    for i in 0..n {
        let gap = match r.below(4) {
            0 => 0,
            1 => r.below(5),
            2 => r.below(40),
            _ => r.below(1 + limit / 2),
        };
        pos = if r.chance(3, 4) { tail + gap } else { pos + gap };
        let mut len = 1 + match r.below(3) {
            0 => r.below(4),
            1 => r.below(30),
            _ => r.below(1 + limit / 2),
        };
        if empty && r.chance(1, 3) {
            len = 0;
        }
        if empty && i + 1 == n && pos < limit && r.chance(1, 3) {
            pos = limit;
            len = 0;
        } else if empty && r.chance(1, 6) && limit > 145 {
            // an empty slice where the bytes read so far end (BLOCK_SIZE is 145 here)
            let p = 145 * (1 + r.below(limit / 145));
            if p >= pos && p <= limit {
                pos = p;
                len = 0;
            }
        }
        tail = pos + len;
        let b = if r.chance(1, 2) { Some(gen_data(r, 5)) } else { None };
        s.push_str(&gen_record(r, pos, len, b.as_deref()));
        if i + 1 < n || r.chance(3, 4) {
            s.push('\n');
        }
    }
    s.into_bytes()
}

const REGEXES: &[&str] = &[
    "a", "b+", "b*", "$", "^|$", "ab", "a.?b", "[ab]{3}", "(?-u)[\\x80-\\xff]+", "(?s-u).{5}", "a{2,}", "[^a]", "aa|b", "^a", "b$", "\\w+", "(?s-u)^.", "(?-u)\\x00",
];

fn gen_seg_filters(r: &mut Rng, c: &mut Case, len: usize, p: usize) {
    if r.chance(1, p) {
        let x = *r.pick(REGEXES);
        push(c, "-e", x);
    }
    if r.chance(1, p) {
        let m = gen_maps(r, 10, 2);
        push(c, "-v", &m);
    }
    if r.chance(1, p) {
        let m = gen_maps(r, 10, 3);
        push(c, "-x", &m);
    }
    if r.chance(1, p) {
        let m = r.below(40);
        push(c, "-m", &format!("{m}"));
    }
    if r.chance(1, p) {
        let m = gen_ranges(r, 1 + len / 16, 3);
        push(c, "-l", &m);
    }
}

fn base_case(r: &mut Rng) -> Case {
    Case { kind: "pipe".to_string(), chunk: if r.chance(1, 8) { 0 } else { 1 + r.below(1 << 20) as u64 }, ..Case::default() }
}

fn shuffle_args(r: &mut Rng, c: &mut Case) {
    // options in any order on the command line
    let mut units: Vec<Vec<String>> = Vec::new();
    let mut it = c.args.clone().into_iter().peekable();
    while let Some(a) = it.next() {
        if a == "-i" {
            units.push(vec![a]);
        } else {
            let b = it.next().unwrap();
            units.push(vec![a, b]);
        }
    }
    for i in (1..units.len()).rev() {
        let j = r.below(i + 1);
        units.swap(i, j);
    }
    c.args = units.into_iter().flatten().collect();
}

const CMDS: &[&str] = &[
    "cat",
    "cat",
    "cat > /dev/null",
    "sed 's/|.*/| /'",
    "awk '{ printf \"%s %s | 4f 4f\\n\", $1, $2 }'",
    "awk 'NR % 2 == 1 { printf \"%s %s | aa bb cc\\n\", $1, $2 }'",
];

fn filler(r: &mut Rng, c: &mut Case) {
    if r.chance(1, 2) {
        let f = *r.pick(&["0", "1", "0xff", "0x7f", "255", "2 * 5"]);
        push(c, "--filler", f);
    }
}

pub fn gen_case(prop: &str, r: &mut Rng) -> Case {
    let mut c = base_case(r);
    let data = gen_input(r);
    let len = data.len();
    c.inputs.push(data);
    match prop {
        "hexdump" => {
            if r.chance(1, 3) {
                let o = *r.pick(&["0x10", "255", "0xffff", "4096"]);
                push(&mut c, "-a", &format!("{o},0"));
            }
            match r.below(6) {
                0 => {}
                1 | 2 => {
                    let w = 1 + r.below(70);
                    push(&mut c, "-w", &format!("{w}"));
                }
                3 => {
                    let x = gen_ranges(r, len, 3);
                    push(&mut c, "-r", &x);
                }
                4 => gen_slicer(r, &mut c, len),
                _ => {
                    let w = 1 + r.below(600);
                    push(&mut c, "-w", &format!("{w}"));
                }
            }
            if r.chance(1, 2) {
                let f = *r.pick(&["x", "b", "d", "xxx", "nnx", "ddx"]);
                push(&mut c, "-f", f);
            }
        }
        "chunk" => {
            c.chunk = 2 + 3 * r.below(1 << 18) as u64;
            for _ in 0..r.below(3) {
                let d = gen_input(r);
                c.inputs.push(d);
            }
            match r.below(4) {
                0 => push(&mut c, "-c", &format!("{}", 1 + len % 9)),
                1 => push(&mut c, "-z", &format!("{}", 1 + len % 9)),
                2 => {
                    c.inputs = vec![gen_records(r, 600, true, 12)];
                    push(&mut c, "-F", if len % 2 == 0 { "x" } else { "nnx" });
                }
                _ => {}
            }
            if r.chance(1, 4) {
                let x = gen_ranges(r, len, 3);
                push(&mut c, "-n", &x);
            }
            if r.chance(1, 4) {
                let (n, m) = (r.below(400), r.below(400));
                push(&mut c, "-a", &format!("{n},{m}"));
            }
            if r.chance(1, 4) {
                c.patch = Some(gen_records(r, len, true, 6));
                push(&mut c, "-p", "{PATCH}");
            }
            gen_slicer(r, &mut c, len);
            gen_seg_filters(r, &mut c, len, 6);
            if r.chance(1, 2) {
                push(&mut c, "-f", "b");
            }
        }
        "cat" => {
            for _ in 0..r.below(4) {
                let d = gen_input(r);
                c.inputs.push(d);
            }
            if r.chance(9, 10) {
                let n = *r.pick(&[1usize, 2, 3, 7, 8, 16, 29, 100, 145, 200]);
                push(&mut c, "-c", &format!("{n}"));
            }
            filler(r, &mut c);
            match r.below(4) {
                0 => push(&mut c, "-f", "b"),
                // a downstream stage that asks for more bytes than one block
                1 => {
                    let n = *r.pick(&[100usize, 146, 200, 291, 333, 500, 1000]);
                    push(&mut c, if r.chance(1, 2) { "-k" } else { "-w" }, &format!("{n}"));
                }
                _ => {}
            }
        }
        "zip" => {
            for _ in 0..r.below(5) {
                let d = if r.chance(1, 2) {
                    let l = (len + r.below(9)).saturating_sub(4);
                    gen_data(r, l)
                } else {
                    gen_input(r)
                };
                c.inputs.push(d);
            }
            let n = *r.pick(&[1usize, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 31, 100, 150]);
            push(&mut c, "-z", &format!("{n}"));
            filler(r, &mut c);
            match r.below(4) {
                0 => push(&mut c, "-f", "b"),
                // a downstream stage that asks for more bytes than one block
                1 => {
                    let n = *r.pick(&[100usize, 146, 200, 291, 333, 500, 1000]);
                    push(&mut c, if r.chance(1, 2) { "-k" } else { "-w" }, &format!("{n}"));
                }
                _ => {}
            }
        }
        "cut" => {
            let x = gen_ranges(r, len, 5);
            push(&mut c, "-n", &x);
            if r.chance(1, 2) {
                push(&mut c, "-f", "b");
            }
        }
        "pad" => {
            let (n, m) = match r.below(4) {
                0 => (0, r.below(20)),
                1 => (r.below(20), 0),
                2 => (r.below(700), r.below(700)),
                _ => (145 * r.below(3), 145 * r.below(3)),
            };
            push(&mut c, "-a", &format!("{n},{m}"));
            filler(r, &mut c);
            if r.chance(1, 3) {
                let x = gen_ranges(r, len, 2);
                push(&mut c, "-n", &x);
            }
            match r.below(4) {
                0 | 1 => push(&mut c, "-f", "b"),
                2 => {
                    let n = *r.pick(&[100usize, 146, 200, 291, 333, 500, 1000]);
                    push(&mut c, if r.chance(1, 2) { "-k" } else { "-w" }, &format!("{n}"));
                }
                _ => {}
            }
        }
        "patch" => {
            c.patch = Some(gen_records(r, len, true, 10));
            if r.chance(1, 12) {
                let t = *r.pick(&["zz 1 | 00\n", "0 | 41\n", "0 1 | 0g\n", "0 x | 00\n", "q\n"]);
                c.patch = Some(t.as_bytes().to_vec());
            }
            if r.chance(1, 8) {
                c.patch = Some(gen_touching(r));
            }
            push(&mut c, "-p", "{PATCH}");
            if r.chance(1, 6) {
                // the alignment and the filler are those of the input, not of the patch
                let n = *r.pick(&[2usize, 3, 5, 8, 16]);
                push(&mut c, if r.chance(1, 2) { "-c" } else { "-z" }, &format!("{n}"));
                filler(r, &mut c);
            }
            if r.chance(1, 4) {
                push(&mut c, "-a", &format!("{},{}", len % 7, len % 5));
            }
            if r.chance(1, 2) {
                push(&mut c, "-f", "b");
            } else if r.chance(1, 3) {
                let w = 1 + r.below(40);
                push(&mut c, "-w", &format!("{w}"));
            }
        }
        "text" => {
            c.inputs.clear();
            for _ in 0..1 + r.below(2) {
                let b = gen_records(r, 600, true, 14);
                c.inputs.push(b);
            }
            if r.chance(1, 12) {
                let t = *r.pick(&["zz 1 | 00\n", "0 | 41\n", "0 1 | 0g\n", "0 x | 00\n", "0 1 | 41\n8 1 | 4\u{7f}\n"]);
                c.inputs = vec![t.as_bytes().to_vec()];
            }
            if r.chance(1, 8) {
                // records that overlap by a few bytes, touch, or go backwards
                c.inputs = vec![gen_touching(r)];
            }
            let f = *r.pick(&["x", "x", "x", "nnx", "nnx", "d"]);
            if f == "d" {
                c.inputs = c.inputs.clone().iter().map(|x| dec_heads(r, x)).collect();
            }
            push(&mut c, "-F", f);
            filler(r, &mut c);
            if r.chance(1, 6) {
                let n = *r.pick(&[2usize, 3, 8]);
                push(&mut c, "-c", &format!("{n}"));
            }
            if r.chance(1, 2) {
                push(&mut c, "-f", "b");
            }
        }
        // the dump of a stream, cut in slices of several widths, with or without gaps
        "roundtrip" => {
            let data = c.inputs[0].clone();
            let (mut t, mut p) = (String::new(), 0);
            let style = r.below(4);
            let w0 = 1 + r.below(80);
            while p < data.len() {
                let w = match style {
                    0 | 1 => w0,
                    2 => 1 + r.below(80),
                    _ => 1 + r.below(600),
                };
                let e = std::cmp::min(data.len(), p + w);
                if style != 3 || !r.chance(1, 3) {
                    let cols = if style == 0 || r.chance(1, 2) { std::cmp::max(w, 16) } else { 16 };
                    t.push_str(&String::from_utf8(hexline(p, &data[p..e], cols, false)).unwrap());
                }
                p = e;
            }
            c.inputs = vec![t.into_bytes()];
            if r.chance(1, 6) {
                c.inputs = vec![dec_heads(r, &c.inputs[0])];
                push(&mut c, "-F", "d");
            } else {
                push(&mut c, "-F", "x");
            }
            if r.chance(1, 3) {
                push(&mut c, "-f", "x");
                push(&mut c, "-w", &format!("{w0}"));
            } else {
                push(&mut c, "-f", "b");
            }
            filler(r, &mut c);
        }
        // well-formed records, then one character (or a few) of a record changed, at any position
        "malformed" => {
            let gapless = r.chance(1, 2);
            let target = r.below(3);
            let mut t = gen_records(r, if target == 0 { 600 } else { len + 1 }, target != 2, 8);
            if t.is_empty() {
                t = b"0 1 | 00\n".to_vec();
            }
            if r.chance(5, 6) {
                for _ in 0..1 + r.below(2) {
                    // mostly inside of the fields and the array, where it matters
                    let mut i = r.below(t.len());
                    for _ in 0..4 {
                        if t[i] != b'\n' && t[i] != b' ' {
                            break;
                        }
                        i = r.below(t.len());
                    }
                    let x = match r.below(7) {
                        0 => *r.pick(b"gG`@/:xz"),
                        1 => t[i] ^ (1 << r.below(8)),
                        2 => t[i] | 0x80,
                        3 => b' ',
                        4 => *r.pick(b"|.-+,\t"),
                        5 => r.below(256) as u8,
                        _ => *r.pick(b"gG`@/:"),
                    };
                    t[i] = if x == b'\n' { b'z' } else { x };
                    // both of the columns of a pair
                    if r.chance(1, 4) && i + 1 < t.len() && t[i + 1] != b'\n' {
                        t[i + 1] = if r.chance(1, 2) { t[i] } else { *r.pick(b": g/@`G0") };
                    }
                }
            }
            match target {
                0 if !gapless && t.is_ascii() && r.chance(1, 4) => {
                    c.inputs = vec![dec_heads(r, &t)];
                    push(&mut c, "-F", "d");
                    push(&mut c, "-f", "b");
                }
                0 => {
                    c.inputs = vec![t];
                    push(&mut c, "-F", if gapless { "nnx" } else { "x" });
                    push(&mut c, "-f", "b");
                }
                1 => {
                    c.patch = Some(t);
                    push(&mut c, "-p", "{PATCH}");
                    push(&mut c, "-f", "b");
                }
                _ => {
                    c.guide = Some(t);
                    push(&mut c, "-g", "{GUIDE}");
                }
            }
        }
        "patchback" => {
            gen_slicer(r, &mut c, len);
            gen_seg_filters(r, &mut c, len, 5);
            if r.chance(1, 4) {
                push(&mut c, "-a", "3,5");
            }
            if r.chance(1, 4) {
                c.patch = Some(gen_records(r, len, true, 5));
                push(&mut c, "-p", "{PATCH}");
            }
            let x = *r.pick(CMDS);
            push(&mut c, "-P", x);
        }
        "width" => {
            let w = match r.below(5) {
                0 => 1 + r.below(8),
                1 => 16,
                2 => 1 + r.below(60),
                3 => 145 + r.below(5) - 2,
                _ => 1 + r.below(400),
            };
            if r.chance(1, 5) {
                push(&mut c, "-w", &format!("{w}"));
            } else {
                let m = match r.below(4) {
                    0 => format!("s-{}..e+{}", r.below(2 * w + 3), r.below(2 * w + 3)),
                    1 => format!("s+{}..e+{}", r.below(2 * w + 3), r.below(2 * w + 3)),
                    2 => format!("s-{}..e-{}", r.below(4 * w + 3), r.below(2 * w + 3)),
                    _ => gen_maps(r, w, 1),
                };
                push(&mut c, "-w", &format!("{w},{m}"));
            }
            if r.chance(1, 3) {
                push(&mut c, "-f", "b");
            }
        }
        "find" => {
            let d = c.inputs[0].clone();
            let p = gen_pattern(r, &d);
            push(&mut c, "-d", &p);
            if r.chance(1, 2) {
                gen_seg_filters(r, &mut c, len, 6);
            }
        }
        "walk" => {
            let w = gen_walk(r);
            push(&mut c, "-k", &w);
            if r.chance(1, 8) {
                c.args[1] = r.pick(&["0", "b[0] - 1000", "b[0]", "1,b[0]", "h[0]", "3 - 4"]).to_string();
            } else if r.chance(1, 6) {
                c.args[1] = r
                    .pick(&[
                        "b[-1]", "b[b[0]-200]+300", "h[0-1]+4", "b[1000000]+1", "l[0x0fffffffffffffff]+1", "i[4611686018427387904]+2", "l[0]", "i[0]*i[1]",
                        "0x7fffffffffffffff", "0x7fffffffffffffff,1", "1,0x7fffffffffffffff", "3,1 << 62,2", "(b[0]&7)/(b[1]&3)+1", "5%(b[0]&1)", "b", "b[0",
                        "b[0]]", "c[0]", "b[0]b[1]", "4 4", "1,,2", "b[0)", "(b[0]", "n+1",
                    ])
                    .to_string();
                if r.chance(1, 3) {
                    let x = format!("{},{}", r.below(9), r.below(9));
                    push(&mut c, "-a", &x);
                }
            }
            if r.chance(1, 3) {
                gen_seg_filters(r, &mut c, len, 6);
            }
        }
        "slice" => {
            let x = gen_ranges(r, len, 6);
            push(&mut c, "-r", &x);
            if r.chance(1, 3) {
                gen_seg_filters(r, &mut c, len, 6);
            }
        }
        "guide" => {
            c.guide = Some(gen_guide(r, len));
            if r.chance(1, 15) {
                c.guide = Some(b"zz 1\n".to_vec());
            }
            push(&mut c, "-g", "{GUIDE}");
            if r.chance(1, 3) {
                gen_seg_filters(r, &mut c, len, 6);
            }
        }
        "regex" => {
            gen_slicer(r, &mut c, len);
            let x = *r.pick(REGEXES);
            push(&mut c, "-e", x);
            if r.chance(1, 4) {
                push(&mut c, "-o", "{DIR}/f_{n:04x}");
            }
        }
        "invert" => {
            gen_slicer(r, &mut c, len);
            let m = gen_maps(r, 10, 3);
            push(&mut c, "-v", &m);
            if r.chance(1, 3) {
                push(&mut c, "-m", &format!("{}", len % 13));
            }
        }
        "extend" => {
            gen_slicer(r, &mut c, len);
            let m = gen_maps(r, 12, 4);
            push(&mut c, "-x", &m);
        }
        "merge" => {
            gen_slicer(r, &mut c, len);
            if r.chance(1, 2) {
                let m = gen_maps(r, 12, 3);
                push(&mut c, "-x", &m);
            }
            let m = *r.pick(&[0usize, 1, 2, 3, 5, 8, 13, 40, 200]);
            push(&mut c, "-m", &format!("{m}"));
        }
        "lines" => {
            gen_slicer(r, &mut c, len);
            if r.chance(1, 4) {
                let m = gen_maps(r, 12, 2);
                push(&mut c, "-x", &m);
            }
            let m = gen_ranges(r, 1 + r.0 as usize % (1 + len / 3), 4);
            push(&mut c, "-l", &m);
        }
        "output" => {
            gen_slicer(r, &mut c, len);
            gen_seg_filters(r, &mut c, len, 9);
            let t = *r.pick(&[
                "{DIR}/out",
                "{DIR}/out",
                "{DIR}/f_{(l & 1)}",
                "{DIR}/f_{l}",
                "{DIR}/f_{n:04x}",
                "{DIR}/f_{(l % 3)}_{(n & 3):02d}.bin",
                "{DIR}/{(n >> 5)}",
                "{DIR}/a{(l >> 1):03o}b",
                "-",
                "",
            ]);
            push(&mut c, "-o", t);
            if r.chance(1, 4) {
                c.pre = Some(gen_data(r, 200));
            }
            if r.chance(1, 3) {
                let f = *r.pick(&["b", "x", "d"]);
                push(&mut c, "-f", f);
            }
        }
        // many files with names computed from random expressions
        "template" => {
            c.inputs[0].truncate(400);
            let w = 1 + r.below(40) + len.min(400) / 12;
            push(&mut c, "-w", &format!("{w}"));
            let mut t = "{DIR}/t".to_string();
            for _ in 0..1 + r.below(3) {
                let v = *r.pick(&["n", "l"]);
                let k = r.below(20);
                let e = match r.below(8) {
                    0 => v.to_string(),
                    1 => format!("({v} + {k})"),
                    2 => format!("({v} * {k} + 1)"),
                    3 => format!("({v} % {})", k + 1),
                    4 => format!("({v} >> {})", k % 7),
                    5 => format!("(n + l * {k})"),
                    6 => format!("({v} & {k})"),
                    _ if r.chance(1, 3) => format!("({v} - {k})"),
                    _ if r.chance(1, 8) => format!("(100 / ({v} - {k} + {}))", k % 4),
                    _ => format!("({v} ^ {k})"),
                };
                let f = *r.pick(&["", "", ":x", ":d", ":o", ":b", ":X", ":03x", ":02d", ":08b", ":5", ":04", ":<5", ":_<7x", ":#x", ":#06b", ":>3o", ":+d", ":+03"]);
                t.push_str(&format!("{}{{{e}{f}}}", *r.pick(&["", "_", "a", ".", "-", "x y"])));
            }
            if r.chance(1, 10) {
                t.push_str(*r.pick(&[
                    "{", "{z}", "{n", "}", "{n:}", "{:x}", "{n:q}", "{{n}}", "{n+1}", "{n 1}", "{n:x ", "{n:xx}", "{(n}", "{(n)1}", "{n}}", "{}", "{n\u{e9}}",
                    "{n:\u{e9}}", "{\u{e9}}", "{(n+)}", "{(n)+(l)}", "{n:x:}", "{nl}", "{(n+1)(l)}", "{-n}", "{n:1d2}", "{(1/0)}", "{(n[0])}", "{(n:x)}",
                ]));
            }
            push(&mut c, "-o", &t);
        }
        "order" => {
            for _ in 0..r.below(2) {
                let d = gen_input(r);
                c.inputs.push(d);
            }
            if r.chance(1, 3) {
                push(&mut c, if len % 2 == 0 { "-c" } else { "-z" }, "3");
            }
            if r.chance(1, 2) {
                let x = gen_ranges(r, len, 2);
                push(&mut c, "-n", &x);
            }
            if r.chance(1, 2) {
                push(&mut c, "-a", "5,9");
            }
            if r.chance(1, 2) {
                c.patch = Some(gen_records(r, len, true, 4));
                push(&mut c, "-p", "{PATCH}");
            }
            filler(r, &mut c);
            gen_slicer(r, &mut c, len);
            gen_seg_filters(r, &mut c, len, 3);
            match r.below(8) {
                0 => push(&mut c, "-z", "2"),
                1 => push(&mut c, "-w", "5"),
                2 => push(&mut c, "-d", "61"),
                3 => push(&mut c, "-r", "1..2"),
                4 => c.args.push("-i".to_string()),
                _ => {}
            }
            if r.chance(1, 8) {
                push(&mut c, "-o", "-");
                if r.chance(1, 2) {
                    push(&mut c, "-P", "cat");
                }
            }
            dedup_opts(&mut c);
            shuffle_args(r, &mut c);
            if c.args.iter().any(|x| x == "-i") {
                c.inputs.truncate(1);
            }
        }
        "expr" | "range" => {
            c.kind = "expr".to_string();
            c.inputs.clear();
            if prop == "range" {
                let mut side = |x: &str| match r.below(8) {
                    0 => String::new(),
                    1 => gen_expr(r, 1),
                    _ => {
                        let d = r.below(4);
                        gen_affine(r, x, false, d)
                    }
                };
                let (a, b) = (side("s"), side("e"));
                let (s, t) = (r.below(1000), r.below(1000));
                c.args = if r.chance(1, 4) { vec![format!("{b}..{a}")] } else { vec![format!("{a}..{b}")] };
                c.args.push(format!("{s}"));
                c.args.push(format!("{t}"));
            } else {
                let d = 1 + r.below(4);
                c.args = vec![match r.below(8) {
                    0 => gen_tokens(r),
                    1 => gen_broken(r, d),
                    _ => gen_expr(r, d),
                }];
            }
        }
        _ => panic!("unknown group {prop}"),
    }
    c
}

fn dedup_opts(c: &mut Case) {
    let mut seen = std::collections::HashSet::new();
    let mut v = Vec::new();
    let mut it = c.args.clone().into_iter();
    while let Some(a) = it.next() {
        if a == "-i" {
            v.push(a);
            continue;
        }
        let b = it.next().unwrap();
        if seen.insert(a.clone()) {
            v.push(a);
            v.push(b);
        }
    }
    c.args = v;
}

fn gen_expr(r: &mut Rng, depth: usize) -> String {
    if depth == 0 || r.chance(1, 7) {
        let k: i64 = match r.below(7) {
            6 if r.chance(1, 3) => i64::MAX - r.range(0, 3),
            4 => 1 << r.below(62),
            5 => (1 << r.below(62)) - 1 + (r.below(1000) as i64),
            0 => r.range(0, 3),
            1 => r.range(0, 20),
            2 => r.range(0, 300),
            _ => r.range(0, 100_000),
        };
        return match r.below(10) {
            0 => {
                let t = match r.below(6) {
                    0 => format!("0x{k:x}"),
                    1 => format!("0X{k:X}"),
                    2 => format!("0b{k:b}"),
                    3 => format!("0B{k:b}"),
                    4 => format!("0o{k:o}"),
                    _ => format!("0O{k:o}"),
                };
                // fillers between digits
                let c: Vec<char> = t.chars().collect();
                let at = 3 + r.below(c.len() - 2);
                if at < c.len() && r.chance(1, 3) { c[..at].iter().chain(&['_']).chain(&c[at..]).collect() } else { t }
            }
            1 => format!("0x{k:x}"),
            2 => format!("0b{k:b}"),
            3 => format!("0{k:o}"),
            4 => format!("0{}{k}", r.pick(&["d", "D"])),
            5 => {
                let head = *r.pick(&["", "", "", "0x", "0b", "0o", "0d", "0"]);
                let v = if head == "0b" { 1 } else { k % 8 };
                // 'E' is a digit of the hexadecimal numbers
                let p = if head == "0x" { r.below(8) } else { r.below(10) };
                let p = ["k", "K", "M", "m", "G", "g", "T", "t", "E", "e"][p];
                format!("{head}{v}{p}{}", r.pick(&["", "i"]))
            }
            _ => format!("{k}"),
        };
    }
    let sp = if r.chance(1, 2) { " " } else { "" };
    match r.below(12) {
        0 => format!("({})", gen_expr(r, depth - 1)),
        1 => {
            let u = *r.pick(&["-", "+", "~"]);
            let x = gen_expr(r, depth - 1);
            if x.starts_with(|c: char| c.is_ascii_digit() || "(-+~".contains(c)) {
                // an unparenthesised binary expression would change its meaning, which is fine: it is only text
                format!("{u}{x}")
            } else {
                format!("{u}({x})")
            }
        }
        _ => {
            let op = *r.pick(&["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "+", "-", "*"]);
            let a = gen_expr(r, depth - 1);
            let b = if op == "<<" || op == ">>" {
                match r.below(6) {
                    0 => format!("(-{})", r.below(64)),
                    1 => format!("{}", r.below(64)),
                    _ => format!("{}", r.below(8)),
                }
            } else {
                gen_expr(r, depth - 1)
            };
            let b = if b.starts_with(|c: char| !(c.is_ascii_digit() || c == '(')) { format!("({b})") } else { b };
            format!("{a}{sp}{op}{sp}{b}")
        }
    }
}

// tokens in no particular order; most of these are syntax errors
fn gen_tokens(r: &mut Rng) -> String {
    let n = r.range(0, 7);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*r.pick(&[
            "+", "-", "*", "/", "%", "&", "|", "^", "<", ">", "<<", ">>", "<=", ">=", "~", "(", ")", "[", "]", "0", "1", "9", "08", "0x", "0x1f", "0b2", "12k",
            "1ki", "3i", "7m", "x", "k", " ", "  ", "=", "#", "$", ".", "9223372036854775807", "9223372036854775808", "8E", "10Ei", "99999999999999999999", "1_0", "1__0", "1_", "0x_1", "0B1", "0X1", "2T", "0b", "0o8", "0xg", "0_7", "1_k",
            "1", "2", "(", ")", "-", "+", "1", "(1)", "(2-2)", "0xffffffffffffffff", "\t",
        ]));
    }
    s
}

// an expression with one character taken away or put in
fn gen_broken(r: &mut Rng, depth: usize) -> String {
    let s = gen_expr(r, depth);
    let mut c: Vec<char> = s.chars().collect();
    let i = r.below(c.len() + 1);
    if r.chance(1, 2) && i < c.len() {
        c.remove(i);
    } else {
        c.insert(i, *r.pick(&['+', '-', '*', '/', '%', '&', '|', '^', '<', '>', '=', '~', '(', ')', '[', ']', '0', '9', ' ', 'k', 'x', 'i', 'a']));
    }
    c.into_iter().collect()
}

// ---------------------------------------------------------------------------------------------- expression cases

fn run_expr(c: &Case) -> Act {
    let e = c.args[0].clone();
    let at = if c.args.len() == 3 { Some((c.args[1].parse::<isize>().unwrap(), c.args[2].parse::<isize>().unwrap())) } else { None };
    let r = catch_unwind(AssertUnwindSafe(move || match at {
        None => crate::eval::parse_int(&e).map(|v| format!("{v}")),
        Some((s, t)) => crate::mapper::SegmentMapper::from_str(&e).map(|m| {
            let (a, b) = m.evaluate(&[s, t], &[s, t]);
            format!("{a} {b}")
        }),
    }));
    match r {
        Err(_) => Act::Panic(PANIC_MSG.with(|p| p.borrow().clone())),
        Ok(Err(e)) => Act::Err(format!("{e:#}")),
        Ok(Ok(v)) => Act::Out { out: v.into_bytes(), files: BTreeMap::new() },
    }
}

fn oracle_expr(c: &Case) -> Exp {
    let v = if c.args.len() == 3 {
        // offsets beyond every stream: they are limited to something that is beyond as well
        if rexpr(&c.args[0]).map_or(false, |(a, b)| a.1.abs().max(b.1.abs()) > 1 << 60) {
            return Exp::NoPanic;
        }
        rexpr(&c.args[0]).and_then(|(a, b)| {
            let (s, t): (i128, i128) = (c.args[1].parse().ok()?, c.args[2].parse().ok()?);
            let p = |x: (bool, i128)| (if x.0 { t } else { s }) + x.1;
            Some(format!("{} {}", p(a), p(b)))
        })
    } else {
        match eval_value(&c.args[0], &mut no_vars) {
            Value::Val(v) => Some(format!("{v}")),
            Value::Error => return Exp::Err,
            Value::Unknown => return Exp::NoPanic,
        }
    };
    match v {
        Some(v) => Exp::Out { out: v.into_bytes(), files: BTreeMap::new(), unordered: false },
        None => Exp::Skip,
    }
}

// an expression equal to x + constant, or to -x + constant if `neg`
fn gen_affine(r: &mut Rng, x: &str, neg: bool, depth: usize) -> String {
    if depth == 0 {
        return if neg { format!("-{x}") } else { x.to_string() };
    }
    let k = gen_expr(r, (depth - 1).min(1));
    let k = if k.starts_with(|c: char| c.is_ascii_digit()) && !k.contains(|c: char| !c.is_ascii_alphanumeric()) { k } else { format!("({k})") };
    let sp = if r.chance(1, 2) { " " } else { "" };
    match r.below(7) {
        0 => format!("({})", gen_affine(r, x, neg, depth - 1)),
        1 => format!("{k}{sp}+{sp}({})", gen_affine(r, x, neg, depth - 1)),
        2 => format!("{k}{sp}-{sp}({})", gen_affine(r, x, !neg, depth - 1)),
        3 => format!("-({})", gen_affine(r, x, !neg, depth - 1)),
        4 => format!("{}{sp}-{sp}{k}", gen_affine(r, x, neg, depth - 1)),
        _ => format!("{}{sp}+{sp}{k}", gen_affine(r, x, neg, depth - 1)),
    }
}

fn run_case(c: &Case) -> (Exp, Act) {
    match c.kind.as_str() {
        "expr" => (oracle_expr(c), run_expr(c)),
        _ => (oracle(c), run_pipe(c)),
    }
}

/// An expected output longer than what the driver is ready to hold: the case is skipped.
fn exceeds_cap(exp: &Exp) -> bool {
    matches!(exp, Exp::Out { out, .. } if out.len() >= OUT_CAP / 2)
}

pub fn check(c: &Case) -> Option<String> {
    let exp = match c.kind.as_str() {
        "expr" => oracle_expr(c),
        _ => oracle(c),
    };
    if exp == Exp::Skip || exceeds_cap(&exp) {
        return None;
    }
    let act = match c.kind.as_str() {
        "expr" => run_expr(c),
        _ => run_pipe(c),
    };
    judge(&exp, &act)
}

// ---------------------------------------------------------------------------------------------- shrinking

fn shrink(c: &Case, deadline: Instant, class: &str) -> Case {
    let mut best = c.clone();
    let fails = |c: &Case| check(c).map_or(false, |m| fail_class(&m) == class);
    loop {
        let mut progressed = false;
        let mut cands: Vec<Case> = Vec::new();
        if best.chunk != 0 {
            let mut d = best.clone();
            d.chunk = 0;
            cands.push(d);
        }
        if best.kind == "pipe" {
            let mut i = 0;
            while i < best.args.len() {
                let w = if best.args[i] == "-i" { 1 } else { 2 };
                let mut d = best.clone();
                d.args.drain(i..i + w);
                cands.push(d);
                i += w;
            }
            for i in 0..best.inputs.len() {
                if best.inputs.len() > 1 {
                    let mut d = best.clone();
                    d.inputs.remove(i);
                    cands.push(d);
                }
            }
            for i in 0..best.args.len() {
                if best.args[i].contains(',') {
                    let parts: Vec<&str> = best.args[i].split(',').collect();
                    for j in 0..parts.len() {
                        let mut p: Vec<&str> = parts.clone();
                        p.remove(j);
                        let mut d = best.clone();
                        d.args[i] = p.join(",");
                        cands.push(d);
                    }
                }
            }
        }
        let blobs = |c: &Case| -> Vec<Vec<u8>> {
            let mut v = c.inputs.clone();
            v.extend(c.patch.clone());
            v.extend(c.guide.clone());
            v
        };
        let set = |c: &mut Case, i: usize, b: Vec<u8>| {
            let n = c.inputs.len();
            if i < n {
                c.inputs[i] = b;
            } else if i == n && c.patch.is_some() {
                c.patch = Some(b);
            } else {
                c.guide = Some(b);
            }
        };
        for (i, b) in blobs(&best).into_iter().enumerate() {
            let n = b.len();
            let is_text = i >= best.inputs.len() || best.opt("-F").is_some();
            if is_text {
                let lines: Vec<&[u8]> = b.split_inclusive(|x| *x == b'\n').collect();
                for j in 0..lines.len() {
                    let mut l = lines.clone();
                    l.remove(j);
                    let mut d = best.clone();
                    set(&mut d, i, l.concat());
                    cands.push(d);
                }
            } else {
                let mut step = n / 2;
                while step > 0 {
                    let mut d = best.clone();
                    set(&mut d, i, b[..n - step].to_vec());
                    cands.push(d);
                    let mut d = best.clone();
                    set(&mut d, i, b[step..].to_vec());
                    cands.push(d);
                    step /= 2;
                }
                if b.iter().any(|x| *x != b'a') {
                    let mut d = best.clone();
                    set(&mut d, i, vec![b'a'; n]);
                    cands.push(d);
                }
            }
        }
        if best.kind == "expr" {
            let s = best.args[0].clone();
            let n = s.len();
            for i in 0..n {
                for w in [1usize, 2, 3, 5, 8] {
                    if i + w <= n && s.is_char_boundary(i) && s.is_char_boundary(i + w) {
                        let mut d = best.clone();
                        d.args[0] = format!("{}{}", &s[..i], &s[i + w..]);
                        cands.push(d);
                    }
                }
            }
        }
        for d in cands {
            if Instant::now() > deadline {
                return best;
            }
            if (d.size() < best.size() || (d.chunk == 0 && best.chunk != 0) || d.inputs != best.inputs) && fails(&d) {
                if d.size() > best.size() {
                    continue;
                }
                best = d;
                progressed = true;
                break;
            }
        }
        if !progressed {
            return best;
        }
    }
}

// coarse class of a failure, so that shrinking does not slip from one defect to another
fn fail_class(m: &str) -> String {
    if let Some(i) = m.find("panic: ") {
        let t = &m[i + 7..];
        return t.split(':').take(2).collect::<Vec<_>>().join(":");
    }
    if m.starts_with("output was expected; got error") {
        return "error".to_string();
    }
    if m.starts_with("an error was expected") {
        return "noerror".to_string();
    }
    if m.starts_with("files") {
        return "files".to_string();
    }
    "output".to_string()
}

// ---------------------------------------------------------------------------------------------- entry point

fn report(tag: &str, c: &Case, msg: &str) {
    let (exp, act) = run_case(c);
    let mut o = String::new();
    o.push_str(&format!("@@{tag} {}\n", msg.replace('\n', " ")));
    for l in c.serialize().lines() {
        o.push_str(&format!("@@case {l}\n"));
    }
    match &exp {
        Exp::Out { out, files, .. } => {
            o.push_str(&format!("@@expected {}\n", hex(&out[..std::cmp::min(out.len(), 4000)])));
            for (k, v) in files {
                o.push_str(&format!("@@expected_file {k} {}\n", hex(&v[..std::cmp::min(v.len(), 1000)])));
            }
        }
        x => o.push_str(&format!("@@expected_kind {}\n", if *x == Exp::Err { "error" } else { "unspecified" })),
    }
    match &act {
        Act::Out { out, files } => {
            o.push_str(&format!("@@got {}\n", hex(&out[..std::cmp::min(out.len(), 4000)])));
            for (k, v) in files {
                o.push_str(&format!("@@got_file {k} {}\n", hex(&v[..std::cmp::min(v.len(), 1000)])));
            }
        }
        x => o.push_str(&format!("@@got_kind {}\n", brief(x).replace('\n', " "))),
    }
    o.push_str("@@end\n");
    print!("{o}");
    let _ = std::io::stdout().flush();
}

fn envn(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}

#[test]
fn verif_main() {
    let cmd = match std::env::var("ND_VERIF_CMD") {
        Ok(c) => c,
        Err(_) => return,
    };
    install_hook();
    let _ = std::fs::create_dir_all(scratch().join("o"));

    // watchdog: a case that does not come back is a failure of its own
    let current: Arc<Mutex<(Option<Case>, Instant)>> = Arc::new(Mutex::new((None, Instant::now())));
    let cur = current.clone();
    let limit = envn("ND_VERIF_CASE_SECS", 20);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let g = cur.lock().unwrap();
        if let Some(c) = &g.0 {
            if g.1.elapsed() > Duration::from_secs(limit) {
                let mut o = format!("@@hang the run did not end within {limit} s\n");
                for l in c.serialize().lines() {
                    o.push_str(&format!("@@case {l}\n"));
                }
                o.push_str("@@end\n");
                print!("{o}");
                let _ = std::io::stdout().flush();
                std::process::exit(3);
            }
        }
    });

    let curfile = scratch().join("current");
    let set_current = |c: Option<&Case>| {
        let mut g = current.lock().unwrap();
        g.0 = c.cloned();
        g.1 = Instant::now();
        if let Some(c) = c {
            let _ = std::fs::write(&curfile, c.serialize());
        }
    };

    if cmd == "replay" {
        let c = Case::deserialize(&std::fs::read_to_string(std::env::var("ND_VERIF_CASE").unwrap()).unwrap());
        set_current(Some(&c));
        match check(&c) {
            Some(m) => report("fail", &c, &m),
            None => report("pass", &c, ""),
        }
        return;
    }

    let prop = std::env::var("ND_VERIF_PROP").unwrap();
    let seed = envn("ND_VERIF_SEED", 1);
    let n = envn("ND_VERIF_CASES", 1000);
    let secs = envn("ND_VERIF_SECS", 30);
    let maxfail = envn("ND_VERIF_MAXFAIL", 1) as usize;
    let start = Instant::now();
    let mut done = 0u64;
    let mut skipped = 0u64;
    let mut errs = 0u64;
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: std::collections::HashSet<u64> = std::collections::HashSet::new();
    for i in 0..n {
        if start.elapsed() > Duration::from_secs(secs) {
            break;
        }
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
        let groups: Vec<&str> = prop.split(',').collect();
        let g = groups[(i as usize) % groups.len()];
        let c = gen_case(g, &mut r);
        let exp = if c.kind == "expr" { oracle_expr(&c) } else { oracle(&c) };
        if exp == Exp::Skip || exceeds_cap(&exp) {
            skipped += 1;
            continue;
        }
        if exp == Exp::Err {
            errs += 1;
        }
        set_current(Some(&c));
        let act = if c.kind == "expr" { run_expr(&c) } else { run_pipe(&c) };
        done += 1;
        {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            c.serialize().hash(&mut h);
            distinct.insert(h.finish());
        }
        if let Some(m) = judge(&exp, &act) {
            let cl = fail_class(&m);
            let k = classes.entry(cl.clone()).or_insert(0);
            *k += 1;
            if *k == 1 {
                current.lock().unwrap().1 = Instant::now() + Duration::from_secs(30);
                let s = shrink(&c, Instant::now() + Duration::from_secs(6), &cl);
                let m = check(&s).unwrap_or(m);
                report("fail", &s, &m);
                if classes.len() >= maxfail {
                    break;
                }
            }
        }
        set_current(None);
    }
    println!(
        "@@stats done={done} skipped={skipped} errors_expected={errs} distinct={} fails={:?} wall={:.1}",
        distinct.len(),
        classes,
        start.elapsed().as_secs_f64()
    );
}
