//! C23 the command-line formatter, run as a program.

use crate::engine::{Cx, Res};
use crate::model::width_of;
use crate::p_json::{chars_plain, gen_j, layout_of, parse_printed, Look, J};
use crate::src::Src;
use serde_json::Value;
use std::fs;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// How long one run may take; it takes milliseconds.
const LIMIT: Duration = Duration::from_secs(100);

struct Run {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}

/// A scratch directory of this case, removed afterwards.
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        let base = std::env::var_os(crate::supervise::STATE_VAR)
            .map(PathBuf::from)
            .unwrap_or_else(std::env::temp_dir);
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let dir = base.join(format!("fmt-{}-{n}", std::process::id()));
        fs::create_dir_all(&dir).expect("scratch directory");
        Scratch(dir)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn format(dir: &Scratch, args: &[String]) -> Result<Run, String> {
    let exe = std::env::current_exe().unwrap().with_file_name("json-formatter");
    let (out, err) = (dir.0.join("out"), dir.0.join("err"));
    let mut child = Command::new(exe)
        .args(args)
        .current_dir(&dir.0)
        .stdin(Stdio::null())
        .stdout(fs::File::create(&out).expect("scratch file"))
        .stderr(fs::File::create(&err).expect("scratch file"))
        .spawn()
        .unwrap_or_else(|e| {
            eprintln!("ERROR: cannot run the formatter: {e}");
            std::process::exit(2)
        });
    let start = Instant::now();
    let mut nap = 500;
    let status = loop {
        if let Some(st) = child.try_wait().expect("child status") {
            break st;
        }
        if start.elapsed() > LIMIT {
            let _ = child.kill();
            let _ = child.wait();
            return Err(format!("the formatter did not end within {} s", LIMIT.as_secs()));
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 5 / 4).min(50_000);
    };
    Ok(Run {
        code: status.code(),
        out: fs::read(out).expect("scratch file"),
        err: String::from_utf8_lossy(&fs::read(err).expect("scratch file")).into_owned(),
    })
}

/// Any way of writing `j` down.
fn write_json(s: &mut Src, j: &J, out: &mut String) {
    fn gap(s: &mut Src, out: &mut String) {
        if s.chance(1, 8) {
            out.push_str(*s.pick(&[" ", "\n", "\t", "\r\n", "   "]));
        }
    }
    fn string(s: &mut Src, t: &str, out: &mut String) {
        out.push('"');
        for ch in t.chars() {
            let short = "\"\\/\u{8}\u{c}\n\r\t".find(ch).map(|i| b"\"\\/bfnrt"[i] as char);
            match short {
                Some(e) if s.chance(3, 4) => out.extend(['\\', e]),
                None if ch >= ' ' && !s.chance(1, 20) => out.push(ch),
                _ => {
                    let mut units = [0; 2];
                    for u in ch.encode_utf16(&mut units) {
                        out.push_str(&format!("\\u{u:04x}"));
                    }
                }
            }
        }
        out.push('"');
    }
    gap(s, out);
    match j {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        // serde_json cannot read back the very largest when written out.
        J::Num(f) if f.abs() > 1e305 => out.push_str("-1.5e300"),
        J::Num(f) => match s.below(6) {
            0 => out.push_str(&format!("{f:e}")),
            1 => out.push_str(&format!("{f:.1}")),
            2 => out.push_str(*s.pick(&["9007199254740991", "-9007199254740992", "0.0", "1E+2", "12e-1", "18446744073709551615", "-9223372036854775808"])),
            _ => out.push_str(&f.to_string()),
        },
        J::Str(t) => string(s, t, out),
        J::Arr(xs) => {
            out.push('[');
            for (i, x) in xs.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write_json(s, x, out);
            }
            gap(s, out);
            out.push(']');
        }
        J::Obj(es) => {
            out.push('{');
            for (i, e) in es.iter().enumerate() {
                let crate::p_json::Entry::Pair(k, v) = e else { unreachable!() };
                if i > 0 {
                    out.push(',');
                }
                gap(s, out);
                string(s, k, out);
                gap(s, out);
                out.push(':');
                write_json(s, v, out);
            }
            gap(s, out);
            out.push('}');
        }
        J::Comment(_) => unreachable!(),
    }
    gap(s, out);
}

/// Equal, with numbers compared as doubles (and read with a last digit of error).
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            x == y || (x - y).abs() <= x.abs() * 1e-14 + 1e-300
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same(v, w)))
        }
        _ => a == b,
    }
}

/// The characters between the colour codes, each with the colour in force.
fn uncolour(text: &str) -> Result<Vec<Vec<(char, Option<u8>)>>, String> {
    let mut lines = vec![vec![]];
    let mut colour = None;
    let mut rest = text;
    while let Some(c) = rest.chars().next() {
        rest = &rest[c.len_utf8()..];
        if c == '\u{1b}' {
            let end = rest.find('m').ok_or("an escape sequence does not end")?;
            colour = match &rest[..end] {
                "[39m" | "[39" | "[0" | "[" => None,
                code => match code.strip_prefix("[38;5;").or(code.strip_prefix("[3")).map(|n| n.parse::<u8>()) {
                    Some(Ok(n)) if n < 8 => Some(n),
                    _ => return Err(format!("unexpected escape sequence {code:?}")),
                },
            };
            rest = &rest[end + 1..];
        } else if c == '\n' {
            lines.push(vec![]);
        } else {
            lines.last_mut().unwrap().push((c, colour));
        }
    }
    if colour.is_some() {
        return Err("the output leaves the terminal coloured".into());
    }
    while lines.last().is_some_and(|l| l.is_empty()) {
        lines.pop();
    }
    Ok(lines)
}

pub fn c23(cx: &mut Cx) -> Res {
    let s = &mut cx.src;
    let mut budget = if s.chance(1, 6) { 120 } else { 20 };
    let depth = s.range(0, 6);
    let mut j = gen_j(s, depth, &mut budget, 0);
    if s.chance(1, 15) {
        // deep, up to about where parsers stop
        for _ in 0..s.range(5, 135) {
            j = if s.chance(2, 3) { J::Arr(vec![j]) } else { J::Obj(vec![crate::p_json::Entry::Pair("k".into(), j)]) };
        }
    }
    if s.chance(1, 300) {
        // many elements
        let n = s.range(100, 3000);
        let xs: Vec<J> = (0..s.range(1, 4)).map(|_| gen_j(s, 1, &mut 3, 0)).collect();
        j = J::Arr((0..n).map(|i| xs[i % xs.len()].clone()).collect());
    }
    let mut text = String::new();
    write_json(s, &j, &mut text);
    let mut bytes = text.into_bytes();
    let damaged = s.chance(1, 8);
    if damaged {
        for _ in 0..s.range(1, 3) {
            let i = s.below(bytes.len() + 1);
            match s.below(3) {
                0 => bytes.truncate(i),
                1 if i < bytes.len() => {
                    bytes.remove(i);
                }
                _ => bytes.insert(i, *s.pick(&[b'"', b',', b'}', b']', b'\\', 0xff, b'x', b'\n', 0, b' ', b'1'])),
            }
        }
    }
    let mut width: u64 = *s.pick(&[80, 0, 1, 5, 10, 20, 30, 40, 60, 100, 200, 65535]);
    if s.chance(1, 2) {
        width = s.below(120) as u64;
    } else if s.chance(2, 3) {
        // about the width of a line, were the strings printed as they were made
        let lines = chars_plain(&layout_of(&j, width).0);
        width = (width_of(s.pick(&lines)) + s.below(4) as u64).saturating_sub(2).min(65535);
    }
    let dir = Scratch::new();
    let name = *s.pick(&["in.json", "x", "a b", "ü.json"]);
    let missing = s.chance(1, 60);
    if !missing {
        fs::write(dir.0.join(name), &bytes).expect("scratch file");
    }
    let mut args = vec![name.to_string()];
    let bad_width = s.chance(1, 60);
    if bad_width {
        let w = s.pick(&["65536", "x", "", "1.5", "99999999999999999999"]).to_string();
        args.extend(["--width".to_string(), w]);
    } else if width == 80 && s.chance(1, 2) {
        // the default
    } else {
        let w = width.to_string();
        match s.below(5) {
            0 => args.extend(["--width".into(), w]),
            1 => args.push(format!("--width={w}")),
            2 => args.push(format!("-w{w}")),
            3 => args.splice(0..0, ["-w".to_string(), w]).for_each(drop),
            _ => args.extend(["-w".into(), w]),
        }
    }
    let expect = serde_json::from_slice::<Value>(&bytes);
    let cmd = args.join(" ");
    let shown = String::from_utf8_lossy(&bytes).into_owned();
    cx.describe(|| format!("formatter {cmd}\n  the file: {shown}"));
    let run = format(&dir, &args)?;
    let fail = |what: &str| {
        format!(
            "{what}\n  formatter {cmd}\n  the file: {shown}\n  exit status {:?}, stderr: {}\n  stdout: {:?}",
            run.code,
            run.err,
            String::from_utf8_lossy(&run.out)
        )
    };
    if run.err.contains("panicked") || run.code.is_none() || run.code == Some(101) {
        return Err(fail("the formatter crashed"));
    }
    let want = match expect {
        Ok(v) if !missing && !bad_width => v,
        _ => {
            cx.label(if missing {
                "the file is missing"
            } else if bad_width {
                "the width is no width"
            } else {
                "the file is not JSON"
            });
            if run.code == Some(0) {
                return Err(fail("the formatter reports success"));
            }
            if !run.out.is_empty() {
                return Err(fail("something is printed although the formatter failed"));
            }
            if run.err.trim().is_empty() {
                return Err(fail("the formatter failed without a message"));
            }
            return Ok(true);
        }
    };
    if run.code != Some(0) {
        return Err(fail("the formatter fails on valid JSON"));
    }
    let out = std::str::from_utf8(&run.out).map_err(|_| fail("the output is not UTF-8"))?;
    let lines = uncolour(out).map_err(|e| fail(&e))?;
    let plain: Vec<String> = lines.iter().map(|l| l.iter().map(|c| c.0).collect()).collect();
    let text = plain.join("\n");
    let got: Value = match serde_json::from_str(&text) {
        Ok(v) => v,
        Err(e) => return Err(fail(&format!("the output is not JSON: {e}"))),
    };
    if !same(&want, &got) {
        return Err(fail(&format!("the output means {got}, the file {want}")));
    }
    // The layout and the colours, given the texts it chose to print.
    let as_printed = parse_printed(&text).map_err(|e| fail(&e))?;
    let spec = layout_of(&as_printed, width);
    let (want_lines, broken, whole) = (chars_plain(&spec.0), spec.1, spec.2);
    if plain != want_lines {
        return Err(fail(&format!("the layout at width {width} should be\n{}", want_lines.join("\n"))));
    }
    for (l, (a, b)) in lines.iter().zip(&spec.0).enumerate() {
        for (x, y) in a.iter().zip(b) {
            let look: Look = y.1;
            if x.0 != ' ' && x.1 != Some(ANSI[look.0]) {
                return Err(fail(&format!("line {l}: the colour of {:?} is {:?}", x.0, x.1)));
            }
        }
    }
    cx.label_if(broken > 0, "a container is spread over lines");
    cx.label_if(whole > 0, "a container stands on one line");
    cx.label_if(text.contains('\\'), "a string with escapes");
    cx.label_if(text.contains("\\u00"), "a string with control characters");
    cx.label_if(plain.iter().any(|l| width_of(l) > width), "a line overflows");
    cx.label_if(damaged, "damaged, but still JSON");
    Ok(broken + whole > 0)
}

/// The terminal's colours, in the order of `p_json::COLORS`.
const ANSI: [u8; 8] = [7, 0, 1, 2, 3, 4, 5, 6];
