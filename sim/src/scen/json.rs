//! C13..C15: values travel as JSON between simulated processes over output
//! streams that write short or fail and transports that fragment or damage.
use super::gen::*;
use super::refjson;
use super::Cx;
use cathlamet::core::data_source::IntermediateDataSource;
use cathlamet::core::json::decoder::JsonDecoder;
use cathlamet::core::json::encoder::JsonEncoder;
use cathlamet::core::types::{parser::TypeParser, Path, Type};
use simrt::{count, ensure, fail, fault, fault_value, plan, plan_pct, plan_range, Outcome};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::io::{self, ErrorKind, Write};
use std::rc::Rc;

pub const INCOMPLETE: &str = "incomplete-output";
pub const NOT_PREFIX: &str = "output-not-a-prefix";
pub const ERROR_LOST: &str = "stream-error-lost";
pub const SPURIOUS: &str = "encode-failed-on-working-stream";
pub const NOT_UTF8: &str = "output-not-utf8";
pub const NOT_JSON: &str = "output-not-json";
pub const WRONG_DOC: &str = "document-spells-another-value";
pub const REJECTED: &str = "good-document-rejected";
pub const WRONG_VALUE: &str = "decoded-another-value";
pub const REENCODE: &str = "re-encoding-differs";
pub const ACCEPTED: &str = "damaged-document-accepted";
pub const MISREAD: &str = "damaged-document-misread";
pub const POISONED: &str = "decoder-remembers-rejected-document";
pub const STUCK: &str = "json-stuck";

/// One output stream of the simulated system.
#[derive(Default)]
pub struct Pipe {
    pub buf: RefCell<Vec<u8>>,
    pub taken: Cell<usize>,
    pub closed: Cell<bool>,
}

#[derive(Clone, Copy)]
pub struct StreamFaults {
    pub short: u64,
    pub interrupt: u64,
    pub fail: u64,
    pub stall: u64,
    /// the stream is full after that many bytes
    pub room: usize,
    pub sticky: bool,
}

impl StreamFaults {
    pub fn none() -> Self {
        StreamFaults { short: 0, interrupt: 0, fail: 0, stall: 0, room: usize::MAX, sticky: false }
    }
}

pub struct SimWriter<'a> {
    pub pipe: &'a Pipe,
    pub f: StreamFaults,
    pub failed: Option<ErrorKind>,
    pub broken: bool,
}

impl<'a> SimWriter<'a> {
    fn hard(&mut self, k: ErrorKind, name: &'static str) -> io::Error {
        count(name);
        simrt::event("stream", k as u64, 1);
        simrt::log(|| format!("stream fails: {:?} after {} bytes", k, self.pipe.buf.borrow().len()));
        self.failed = Some(k);
        self.broken = self.f.sticky;
        io::Error::from(k)
    }
}

impl<'a> Write for SimWriter<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        // a very long document would use up the steps of a run
        let have = self.pipe.buf.borrow().len();
        if have < 4_000 || have % 128 == 0 {
            simrt::preempt("write");
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.broken {
            return Err(io::Error::from(ErrorKind::BrokenPipe));
        }
        if fault(self.f.stall, 2) == 1 {
            count("fault.stream_stall");
            simrt::block_on(simrt::sleep(1_000 + fault_value(5) * 400_000));
        }
        if fault(self.f.interrupt, 2) == 1 {
            count("fault.stream_interrupted");
            simrt::event("stream", 1, 2);
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        match fault(self.f.fail, 7) {
            0 => {}
            1 => return Err(self.hard(ErrorKind::BrokenPipe, "fault.stream_broken_pipe")),
            2 => return Err(self.hard(ErrorKind::StorageFull, "fault.stream_no_space")),
            3 => return Err(self.hard(ErrorKind::WouldBlock, "fault.stream_would_block")),
            4 => return Err(self.hard(ErrorKind::TimedOut, "fault.stream_timed_out")),
            5 => return Err(self.hard(ErrorKind::Other, "fault.stream_io_error")),
            _ => {
                let _ = self.hard(ErrorKind::WriteZero, "fault.stream_accepts_nothing");
                return Ok(0);
            }
        }
        let mut n = b.len();
        let have = self.pipe.buf.borrow().len();
        if have + n > self.f.room {
            n = self.f.room.saturating_sub(have);
            if n == 0 {
                self.f.sticky = true;
                return Err(self.hard(ErrorKind::StorageFull, "fault.stream_no_space"));
            }
            count("fault.stream_short_write");
        } else if n > 1 && fault(self.f.short, 2) == 1 {
            n = 1 + fault_value(n as u64 - 1) as usize;
            count("fault.stream_short_write");
        }
        simrt::event("stream", n as u64, 3);
        self.pipe.buf.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        simrt::preempt("write");
        if self.broken {
            return Err(io::Error::from(ErrorKind::BrokenPipe));
        }
        Ok(())
    }
}

pub fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.chars().count() > 160 {
        format!("{:?}... ({} bytes)", s.chars().take(160).collect::<String>(), b.len())
    } else {
        format!("{:?}", s)
    }
}

struct Subject {
    ty: Ty,
    real: Type,
    idents: bool,
    encoder: JsonEncoder,
}

fn gen_subject(cx: &Cx) -> Rc<Subject> {
    let o = TypeOpts {
        idents: plan_pct(50),
        fields: 64,
        big_enum_pct: 2,
        wide_pct: if cx.thorough { 4 } else { 3 },
        depth: plan_range(0, 3) as u32,
        empty: plan_pct(20),
        huge: 120,
    };
    let ty = gen_ty(&o, 0);
    let real = real_type(&ty);
    let encoder = JsonEncoder::new(&real);
    Rc::new(Subject { ty, real, idents: o.idents && !o.empty, encoder })
}

/// What a process that starts now knows about the type.
fn fresh_type(s: &Subject) -> Type {
    if s.idents && plan_pct(30) {
        match TypeParser::new().parse(&type_text(&s.ty)) {
            Ok(t) => return t,
            Err(_) => fail(REJECTED, format!("type {} is not accepted by the type parser", type_text(&s.ty))),
        }
    }
    s.real.clone()
}

fn perfect(s: &Subject, v: &Val) -> Vec<u8> {
    let mut out = Vec::new();
    let src = to_source(&s.ty, v);
    if let Err(e) = JsonEncoder::new(&s.real).encode(&mut out, &src) {
        fail(SPURIOUS, format!("encoding {:?} into memory failed: {}", v, e));
    }
    out
}

pub fn run(cx: &Cx) {
    simrt::seed_entropy(simrt::plan_u64());
    let peers = plan_range(1, if cx.property == "C15" { 2 } else { 4 });
    let mut subjects: Vec<Rc<Subject>> = vec![gen_subject(cx)];
    for _ in 1..peers {
        let s = if plan_pct(60) { subjects[0].clone() } else { gen_subject(cx) };
        subjects.push(s);
    }
    for (k, s) in subjects.into_iter().enumerate() {
        let docs = plan_range(1, 3) as usize;
        let vals: Vec<Val> = (0..docs).map(|_| gen_val(&s.ty, true)).collect();
        match cx.property {
            "C13" => {
                let faults: Vec<StreamFaults> = (0..docs).map(|_| stream_faults(true)).collect();
                simrt::spawn(format!("writer{}", k), move || writer(&s, vals, faults));
            }
            "C14" => {
                let pipes: Rc<Vec<Pipe>> = Rc::new((0..docs).map(|_| Pipe::default()).collect());
                let (s2, p2, v2) = (s.clone(), pipes.clone(), vals.clone());
                let f = stream_faults(false);
                let piece = [1, 3, 40, 4000][plan(4) as usize];
                simrt::spawn(format!("sender{}", k), move || sender(&s, vals, &pipes, f));
                simrt::spawn(format!("receiver{}", k), move || receiver(&s2, v2, &p2, piece));
            }
            _ => {
                simrt::spawn(format!("receiver{}", k), move || damaged(&s, vals));
            }
        }
    }
    match simrt::run_tasks() {
        Outcome::Done | Outcome::Halted => {}
        Outcome::Stuck(_) => fail(STUCK, "tasks never finish".into()),
    }
}

pub fn stream_faults(failing: bool) -> StreamFaults {
    let mut f = StreamFaults::none();
    f.short = [0, 100, 500, 1000][plan(4) as usize];
    f.interrupt = [0, 50, 300][plan(3) as usize];
    f.stall = [0, 0, 30][plan(3) as usize];
    if failing {
        match plan(5) {
            0 => {}
            1 => f.fail = 10,
            2 => f.fail = 60,
            3 => f.fail = 250,
            _ => f.room = usize::MAX - 1, // replaced when the document is known
        }
        f.sticky = plan(3) != 0;
    }
    f
}

// ------------------------------------------------------------------- C13

fn writer(s: &Subject, vals: Vec<Val>, faults: Vec<StreamFaults>) {
    for (v, mut f) in vals.iter().zip(faults) {
        let doc = perfect(s, v);
        if f.room == usize::MAX - 1 {
            f.room = plan(doc.len() as u64 + 2) as usize;
        }
        let pipe = Pipe::default();
        let src = to_source(&s.ty, v);
        simrt::log(|| format!("encode {}", show(&doc)));
        let mut w = SimWriter { pipe: &pipe, f, failed: None, broken: false };
        let before = simrt::counter("fault.stream_short_write") + simrt::counter("fault.stream_interrupted");
        let r = s.encoder.encode(&mut w, &src);
        let disturbed = simrt::counter("fault.stream_short_write") + simrt::counter("fault.stream_interrupted") > before;
        let failed = w.failed;
        count("op.encode");
        simrt::event("encoded", r.is_ok() as u64, doc.len() as u64);
        simrt::log(|| format!("encode -> {:?}, stream has {} of {} bytes", r.as_ref().map_err(|e| e.kind()), pipe.buf.borrow().len(), doc.len()));
        let got = pipe.buf.borrow();
        if disturbed || failed.is_some() {
            count("nontrivial");
        }
        match (&r, failed) {
            (Ok(()), Some(k)) => fail(ERROR_LOST, format!("the stream failed with {:?} but encoding {} returned success", k, show(&doc))),
            (Ok(()), None) => {
                if *got != doc {
                    fail(INCOMPLETE, format!("encoding returned success, the stream has {} but the document is {}", show(&got), show(&doc)));
                }
                count("probe.complete_on_disturbed_stream");
            }
            (Err(e), None) => fail(SPURIOUS, format!("the stream never failed but encoding {} returned {}", show(&doc), e)),
            (Err(_), Some(_)) => {
                if !doc.starts_with(&got) {
                    fail(NOT_PREFIX, format!("encoding failed; the stream has {} which is no prefix of {}", show(&got), show(&doc)));
                }
                count("probe.failed_with_prefix");
                drop(got);
                // the same encoder on a working stream
                let again = Pipe::default();
                let mut w = SimWriter { pipe: &again, f: StreamFaults::none(), failed: None, broken: false };
                let r = s.encoder.encode(&mut w, &src);
                ensure!(r.is_ok(), SPURIOUS, "after a failed stream, encoding {} on a working one returned {:?}", show(&doc), r);
                ensure!(*again.buf.borrow() == doc, INCOMPLETE, "after a failed stream, the next one has {} instead of {}", show(&again.buf.borrow()), show(&doc));
            }
        }
    }
}

// ------------------------------------------------------------------- C14

fn sender(s: &Subject, vals: Vec<Val>, pipes: &[Pipe], f: StreamFaults) {
    for (v, p) in vals.iter().zip(pipes) {
        let src = to_source(&s.ty, v);
        let mut w = SimWriter { pipe: p, f, failed: None, broken: false };
        let r = s.encoder.encode(&mut w, &src);
        ensure!(r.is_ok(), SPURIOUS, "encoding {:?} returned {:?}", v, r);
        count("op.encode");
        p.closed.set(true);
    }
}

/// Decode into a new data source, or into one that has been used before.
fn decode(d: &mut JsonDecoder, s: &Subject, text: &str, out: &mut IntermediateDataSource) -> Result<Val, Result<String, String>> {
    let used = match plan(4) {
        0 => {
            count("op.decode_into_used");
            true
        }
        1 => {
            count("op.decode_into_cleared");
            out.clear();
            true
        }
        _ => {
            *out = IntermediateDataSource::new();
            false
        }
    };
    match d.parse(text, out) {
        Err(e) => Err(Ok(e)),
        Ok(()) => match simrt::catch(|| read_back(out, &s.ty, &Path::create_empty())) {
            Ok(Ok(v)) => {
                // nothing of an earlier document may be left
                if used && text.len() < 2_000 {
                    count("probe.leftovers");
                    if let Some(p) = leftover(out, &s.ty, &v, &Path::create_empty()) {
                        return Err(Err(format!("{:?}, and holds another case's element {:?} of an earlier document", v, p)));
                    }
                }
                Ok(v)
            }
            Ok(Err(e)) | Err(e) => Err(Err(e)),
        },
    }
}

fn receiver(s: &Subject, vals: Vec<Val>, pipes: &[Pipe], piece: u64) {
    let typ = fresh_type(s);
    let mut decoder = JsonDecoder::new(&typ);
    let encoder = JsonEncoder::new(&typ);
    let mut src = IntermediateDataSource::new();
    for (v, p) in vals.iter().zip(pipes) {
        // collect pieces until the sender has finished this document
        let mut doc = Vec::new();
        let mut pieces = 0;
        loop {
            let have = p.buf.borrow().len() - p.taken.get();
            if have > 0 {
                // very long documents come in long pieces
                let piece = piece.max(have as u64 / 100);
                let n = (1 + simrt::sched_value(piece)).min(have as u64) as usize;
                let from = p.taken.get();
                doc.extend_from_slice(&p.buf.borrow()[from..from + n]);
                p.taken.set(from + n);
                pieces += 1;
                simrt::preempt("receive");
            } else if p.closed.get() {
                break;
            } else {
                simrt::block_on(simrt::sleep(10_000));
            }
        }
        simrt::log(|| format!("received {} in {} pieces", show(&doc), pieces));
        simrt::event("received", pieces, doc.len() as u64);
        if pieces > 1 {
            count("nontrivial");
            count("probe.fragmented_document");
        }
        let text = match std::str::from_utf8(&doc) {
            Ok(t) => t,
            Err(e) => return fail(NOT_UTF8, format!("{:?} was encoded to {:?}: {}", v, doc, e)),
        };
        match refjson::parse(text) {
            Err(e) => return fail(NOT_JSON, format!("{:?} was encoded to {}: {}", v, show(&doc), e)),
            Ok(j) => match refjson::typed(&j, &s.ty) {
                Ok(x) if x == *v => {}
                Ok(x) => return fail(WRONG_DOC, format!("{:?} was encoded to {} which means {:?}", v, show(&doc), x)),
                Err(e) => return fail(WRONG_DOC, format!("{:?} was encoded to {}: {}", v, show(&doc), e)),
            },
        }
        match decode(&mut decoder, s, text, &mut src) {
            Err(Ok(e)) => return fail(REJECTED, format!("{} was rejected: {}", show(&doc), e)),
            Err(Err(e)) => return fail(WRONG_VALUE, format!("{} was decoded but its value cannot be read: {}", show(&doc), e)),
            Ok(x) => {
                ensure!(x == *v, WRONG_VALUE, "{} was decoded to {:?} instead of {:?}", show(&doc), x, v);
                let mut again = Vec::new();
                let r = encoder.encode(&mut again, &src);
                ensure!(r.is_ok() && again == doc, REENCODE, "{} was decoded and encoded again as {}", show(&doc), show(&again));
            }
        }
        count("probe.value_carried");
    }
}

// ------------------------------------------------------------------- C15

/// Another implementation's way to write the same document.
pub fn foreign(t: &Ty, v: &Val, out: &mut String) {
    fn ws(out: &mut String) {
        if plan_pct(15) {
            out.push_str([" ", "\n", "\t", "\r\n", "  "][plan(5) as usize]);
        }
    }
    fn string(s: &str, out: &mut String) {
        out.push('"');
        for c in s.chars() {
            let code = c as u32;
            if code < 0x20 || c == '"' || c == '\\' || plan_pct(20) {
                if code >= 0x10000 {
                    let x = code - 0x10000;
                    out.push_str(&format!("\\u{:04x}\\u{:04X}", 0xd800 + (x >> 10), 0xdc00 + (x & 0x3ff)));
                } else {
                    out.push_str(&format!("\\u{:04x}", code));
                }
            } else {
                out.push(c);
            }
        }
        out.push('"');
    }
    fn list(open: char, close: char, items: Vec<String>, out: &mut String) {
        out.push(open);
        for (i, x) in items.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            ws(out);
            out.push_str(x);
            ws(out);
        }
        out.push(close);
    }
    let pair = |l: &str, t: &Ty, v: &Val| {
        let mut x = String::new();
        string(l, &mut x);
        ws(&mut x);
        x.push(':');
        ws(&mut x);
        foreign(t, v, &mut x);
        x
    };
    use cathlamet::core::value::PrimitiveValue as V;
    match (t, v) {
        (Ty::Unit, _) => out.push_str("null"),
        (Ty::Str, Val::Str(s)) => string(s, out),
        (Ty::Prim(_), Val::Prim(V::Bool(b))) => out.push_str(if *b { "true" } else { "false" }),
        (Ty::Prim(_), Val::Prim(V::Char(c))) => string(&c.to_string(), out),
        (Ty::Prim(_), Val::Prim(p)) => {
            let n = match p {
                V::F32(x) => {
                    if (1e-3..1e6).contains(x) && plan_pct(30) {
                        // a little above the middle between this and the one below
                        let below = f32::from_bits(x.to_bits() - 1);
                        count("probe.near_the_middle");
                        format!("{:.60}{:04}", (below as f64 + *x as f64) / 2.0, 1 + plan(9999))
                    } else if plan_pct(50) {
                        format!("{:e}", x)
                    } else {
                        format!("{}", x)
                    }
                }
                V::F64(x) => {
                    if plan_pct(50) {
                        format!("{:e}", x)
                    } else {
                        format!("{}", x)
                    }
                }
                V::U8(x) => x.to_string(),
                V::U16(x) => x.to_string(),
                V::U32(x) => x.to_string(),
                V::U64(x) => x.to_string(),
                V::U128(x) => x.to_string(),
                V::I8(x) => x.to_string(),
                V::I16(x) => x.to_string(),
                V::I32(x) => x.to_string(),
                V::I64(x) => x.to_string(),
                V::I128(x) => x.to_string(),
                _ => unreachable!(),
            };
            if plan_pct(10) {
                string(&n, out)
            } else {
                out.push_str(&n)
            }
        }
        (Ty::Tuple(c), Val::Seq(x)) => {
            let items = c.iter().zip(x).map(|(t, v)| {
                let mut o = String::new();
                foreign(t, v, &mut o);
                o
            });
            list('[', ']', items.collect(), out)
        }
        (Ty::Struct(f), Val::Seq(x)) => {
            let mut items: Vec<String> = f.iter().zip(x).map(|(t, v)| pair(&t.0, &t.1, v)).collect();
            if items.len() > 1 && plan_pct(30) {
                let (a, b) = (plan(items.len() as u64) as usize, plan(items.len() as u64) as usize);
                items.swap(a, b);
            }
            list('{', '}', items, out)
        }
        (Ty::Enum(f), Val::Enum(i, x)) => {
            let items = vec![pair("kind", &Ty::Str, &Val::Str(f[*i].0.clone())), pair("value", &f[*i].1, x)];
            list('{', '}', items, out)
        }
        _ => unreachable!(),
    }
}

fn tidy(doc: &[u8], marks: &[u8]) -> Vec<usize> {
    // token boundaries, so that whole pieces of a document get lost or repeated
    let mut v: Vec<usize> = doc.iter().enumerate().filter(|(_, b)| marks.contains(b)).flat_map(|(i, _)| [i, i + 1]).collect();
    v.push(0);
    v.push(doc.len());
    v.sort();
    v.dedup();
    v
}

fn cut(doc: &[u8], marks: &[u8], whole: bool) -> (usize, usize) {
    let p = || {
        if whole {
            let t = tidy(doc, marks);
            t[fault_value(t.len() as u64) as usize]
        } else {
            fault_value(doc.len() as u64 + 1) as usize
        }
    };
    let (a, b) = (p(), p());
    let (a, b) = (a.min(b), a.max(b));
    // mostly short pieces
    if b - a > 12 && fault_value(4) != 0 {
        (a, a + 1 + fault_value(12) as usize)
    } else {
        (a, b)
    }
}

pub fn damage(doc: Vec<u8>, other: &[u8]) -> Vec<u8> {
    damage_text(doc, other, b"{}[],:\"\\", b"\"\\/bfnrtu0123456789abcdefABCDEF{}[]:,.-+eE \t\x0b\x0c\x00\x1f\x7f")
}

const STRAY: [&str; 12] = ["\u{feff}", "\u{a0}", "\u{2028}", "\u{3000}", "\u{85}", "\u{200b}", "\n", "\r\n", "\0", "\u{1a}", "//", "#"];

/// What a bad transport does to a text; `marks` end its pieces.
pub fn damage_text(mut doc: Vec<u8>, other: &[u8], marks: &[u8], alphabet: &[u8]) -> Vec<u8> {
    let n = 1 + fault_value(3);
    for _ in 0..n {
        if doc.is_empty() {
            break;
        }
        if fault_value(25) == 1 {
            // something a text editor leaves behind
            count("fault.stray_character");
            let at = match fault_value(4) {
                0 => 0,
                1 => doc.len(),
                _ => {
                    let t = tidy(&doc, marks);
                    t[fault_value(t.len() as u64) as usize]
                }
            };
            let c = STRAY[fault_value(STRAY.len() as u64) as usize];
            doc.splice(at..at, c.bytes());
            continue;
        }
        match fault_value(11) {
            0 => {
                count("fault.bit_flip");
                let i = fault_value(doc.len() as u64) as usize;
                doc[i] ^= 1 << fault_value(if doc[i] < 0x80 { 7 } else { 8 });
            }
            1 => {
                count("fault.truncated");
                let n = fault_value(doc.len() as u64) as usize;
                doc.truncate(n);
            }
            2 | 3 => {
                count("fault.piece_dropped");
                let (a, b) = cut(&doc, marks, fault_value(2) == 1);
                doc.drain(a..b);
            }
            4 | 5 => {
                count("fault.piece_repeated");
                let (a, b) = cut(&doc, marks, fault_value(2) == 1);
                let x = doc[a..b].to_vec();
                let at = if fault_value(3) == 0 { b } else { fault_value(doc.len() as u64 + 1) as usize };
                let tail = doc.split_off(at);
                doc.extend(x);
                doc.extend(tail);
            }
            6 => {
                count("fault.pieces_swapped");
                let (a, b) = cut(&doc, marks, true);
                let c = b + fault_value((doc.len() - b) as u64 + 1) as usize;
                let d: Vec<u8> = [&doc[..a], &doc[b..c], &doc[a..b], &doc[c..]].concat();
                doc = d;
            }
            7 => {
                count("fault.tail_of_other_document");
                let i = fault_value(doc.len() as u64 + 1) as usize;
                let j = fault_value(other.len() as u64 + 1) as usize;
                doc.truncate(i);
                doc.extend_from_slice(&other[j..]);
            }
            8 => {
                count("fault.more_behind_the_end");
                let j = fault_value(other.len() as u64 + 1) as usize;
                doc.extend_from_slice(&other[j..]);
            }
            _ => {
                count("fault.byte_overwritten");
                let i = fault_value(doc.len() as u64) as usize;
                doc[i] = alphabet[fault_value(alphabet.len() as u64) as usize];
                if fault_value(3) == 0 && i + 1 < doc.len() {
                    doc[i + 1] = alphabet[fault_value(alphabet.len() as u64) as usize];
                }
            }
        }
    }
    doc
}

fn damaged(s: &Subject, vals: Vec<Val>) {
    let typ = fresh_type(s);
    let mut decoder = JsonDecoder::new(&typ);
    let docs: Vec<Vec<u8>> = vals
        .iter()
        .map(|v| {
            if plan_pct(50) {
                let mut o = String::new();
                foreign(&s.ty, v, &mut o);
                o.into_bytes()
            } else {
                perfect(s, v)
            }
        })
        .collect();
    let good: Vec<Vec<u8>> = vals.iter().map(|v| perfect(s, v)).collect();
    let mut pending: VecDeque<u64> = (0..plan_range(1, 12)).collect();
    let mut rejected = false;
    let mut src = IntermediateDataSource::new();
    while pending.pop_front().is_some() {
        simrt::preempt("receive");
        let i = plan(docs.len() as u64) as usize;
        if plan_pct(25) {
            // an undamaged one in between
            let text = std::str::from_utf8(&good[i]).unwrap_or("");
            match decode(&mut decoder, s, text, &mut src) {
                Ok(x) if x == vals[i] => count("probe.good_after_damaged"),
                other => {
                    let what = match other {
                        Ok(x) => format!("decoded to {:?}", x),
                        Err(Ok(e)) => format!("rejected: {}", e),
                        Err(Err(e)) => format!("unreadable: {}", e),
                    };
                    let class = if rejected { POISONED } else { WRONG_VALUE };
                    return fail(class, format!("good document {} is {}", show(&good[i]), what));
                }
            }
            continue;
        }
        let bytes = if fault_value(20) == 1 {
            docs[i].clone()
        } else {
            damage(docs[i].clone(), &docs[plan(docs.len() as u64) as usize])
        };
        simrt::event("damaged", bytes.len() as u64, bytes.iter().fold(0u64, |h, b| h.wrapping_mul(31).wrapping_add(*b as u64)));
        let text = match std::str::from_utf8(&bytes) {
            Ok(t) => t,
            Err(_) => {
                count("probe.not_utf8_any_more");
                continue;
            }
        };
        simrt::log(|| format!("received {}", show(&bytes)));
        let reference = refjson::parse(text).and_then(|j| refjson::typed(&j, &s.ty));
        count("op.decode_damaged");
        match (decode(&mut decoder, s, text, &mut src), reference) {
            (Err(Ok(_)), r) => {
                count("probe.rejected");
                count("nontrivial");
                rejected = true;
                if r.is_ok() {
                    count("probe.rejected_though_well_formed");
                }
            }
            (Ok(x), Ok(r)) => {
                ensure!(x == r, MISREAD, "{} was decoded to {:?} but spells out {:?}", show(&bytes), x, r);
                count("probe.accepted_and_well_formed");
                if x != vals[i] {
                    count("nontrivial");
                    count("probe.accepted_with_other_value");
                }
            }
            (Ok(x), Err(e)) => {
                return fail(ACCEPTED, format!("{} ({}) was accepted as {:?} for type {}", show(&bytes), e, x, type_text(&s.ty)))
            }
            (Err(Err(e)), r) => {
                return fail(MISREAD, format!("{} was accepted but its value cannot be read: {} (it spells {:?})", show(&bytes), e, r))
            }
        }
    }
}
