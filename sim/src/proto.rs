//! Replay files, known findings and a little JSON writing.
use std::fmt::Write as _;
use std::path::Path;

#[derive(Clone, Debug, Default)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub message: String,
    pub tier: String,
    pub seed: u64,
    pub run: u64,
    pub streams: [Vec<u64>; 3],
    pub trace: Vec<String>,
}

const NAMES: [&str; 3] = ["plan", "sched", "fault"];

impl Replay {
    pub fn write(&self, path: &Path) -> std::io::Result<()> {
        let mut s = String::new();
        let one = |m: &str| m.replace('\n', " ");
        writeln!(s, "dst-replay 1").unwrap();
        writeln!(s, "property {}", self.property).unwrap();
        writeln!(s, "tier {}", self.tier).unwrap();
        writeln!(s, "seed {}", self.seed).unwrap();
        writeln!(s, "run {}", self.run).unwrap();
        writeln!(s, "class {}", one(&self.class)).unwrap();
        writeln!(s, "message {}", one(&self.message)).unwrap();
        for k in 0..3 {
            let v: Vec<String> = self.streams[k].iter().map(|x| x.to_string()).collect();
            writeln!(s, "{} {}", NAMES[k], v.join(" ")).unwrap();
        }
        for t in &self.trace {
            writeln!(s, "# {}", one(t)).unwrap();
        }
        if let Some(d) = path.parent() {
            std::fs::create_dir_all(d)?;
        }
        std::fs::write(path, s)
    }

    pub fn read(path: &Path) -> std::io::Result<Replay> {
        let text = std::fs::read_to_string(path)?;
        let mut r = Replay::default();
        for line in text.lines() {
            let (k, v) = line.split_once(' ').unwrap_or((line, ""));
            match k {
                "property" => r.property = v.to_string(),
                "tier" => r.tier = v.to_string(),
                "seed" => r.seed = v.parse().unwrap_or(0),
                "run" => r.run = v.parse().unwrap_or(0),
                "class" => r.class = v.to_string(),
                "message" => r.message = v.to_string(),
                "plan" | "sched" | "fault" => {
                    let i = NAMES.iter().position(|n| *n == k).unwrap();
                    r.streams[i] = v.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                }
                "#" => r.trace.push(v.to_string()),
                _ => {}
            }
        }
        Ok(r)
    }
}

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub class: String,
    pub text: String,
}

/// Lines `known: property=<id> class=<class> :: <text>`; `fixed:` lines suppress nothing.
pub fn read_known(path: &Path) -> Vec<Known> {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut out = Vec::new();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("known: property=") {
            let (prop, rest) = rest.split_once(' ').unwrap_or((rest, ""));
            if let Some(rest) = rest.trim().strip_prefix("class=") {
                let (class, text) = rest.split_once(" :: ").unwrap_or((rest, ""));
                out.push(Known { property: prop.to_string(), class: class.trim().to_string(), text: text.trim().to_string() });
            }
        }
    }
    out
}

pub enum J {
    S(String),
    I(i64),
    F(f64),
    B(bool),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    pub fn strings<'a>(x: impl IntoIterator<Item = &'a str>) -> J {
        J::A(x.into_iter().map(J::s).collect())
    }
    pub fn render(&self, ind: usize, out: &mut String) {
        let pad = "  ".repeat(ind + 1);
        let end = "  ".repeat(ind);
        match self {
            J::S(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        c if (c as u32) < 0x20 => write!(out, "\\u{:04x}", c as u32).unwrap(),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::I(i) => write!(out, "{}", i).unwrap(),
            J::F(f) => write!(out, "{:.3}", f).unwrap(),
            J::B(b) => write!(out, "{}", b).unwrap(),
            J::A(v) => {
                if v.is_empty() {
                    out.push_str("[]");
                    return;
                }
                out.push_str("[\n");
                for (i, x) in v.iter().enumerate() {
                    out.push_str(&pad);
                    x.render(ind + 1, out);
                    out.push_str(if i + 1 < v.len() { ",\n" } else { "\n" });
                }
                out.push_str(&end);
                out.push(']');
            }
            J::O(v) => {
                if v.is_empty() {
                    out.push_str("{}");
                    return;
                }
                out.push_str("{\n");
                for (i, (k, x)) in v.iter().enumerate() {
                    out.push_str(&pad);
                    J::s(k.clone()).render(0, out);
                    out.push_str(": ");
                    x.render(ind + 1, out);
                    out.push_str(if i + 1 < v.len() { ",\n" } else { "\n" });
                }
                out.push_str(&end);
                out.push('}');
            }
        }
    }
}
