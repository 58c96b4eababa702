mod alloc;
mod doc;
mod engine;
mod gen;
mod model;
mod p_alg;
mod p_demo;
mod p_err;
mod p_json;
mod p_layout;
mod p_lazy;
mod p_misc;
mod p_pane;
mod p_valid;
mod run;
mod src;
mod supervise;
mod valid;

use engine::{run_case, run_prop, Prop};
use std::time::Instant;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

const PROPS: &[Prop] = &[
    Prop {
        id: "C01", run: p_layout::c01, quick: 80_000, thorough: 20, len: 1400, level: "exploration",
        rule: "Random notation sets (idiomatic and unrestricted, all 17 constructors), random documents fitting them, widths biased to thresholds of the layout; printed lines and the string are compared with the reference printer. Non-trivial: the layout shows at least one choice and lines and nodes together number more than two.",
        assumptions: &["texts, literals and indentations contain no control characters", "the display width of a string is what the unicode-width crate says", "the reference printer reads the notation documentation correctly (written independently of the library's walker; also compared with the library's own oracle in C19)"],
    },
    Prop {
        id: "C02", run: p_layout::c02, quick: 60_000, thorough: 20, len: 1400, level: "exploration",
        rule: "Random rule-abiding notation sets and documents, widths at and one off the flat width and each printed line's width; lines are compared with an exhaustive search over the resolutions of each line's choices, and reprinted at their own widest line. Non-trivial: the layout shows a choice.",
        assumptions: &["texts, literals and indentations contain no control characters", "the display width of a string is what the unicode-width crate says", "the reference printer reads the notation documentation correctly (written independently of the library's walker; also compared with the library's own oracle in C19)"],
    },
    Prop {
        id: "C03", run: p_layout::c03, quick: 100_000, thorough: 20, len: 1400, level: "exploration",
        rule: "Random notation sets (idiomatic and unrestricted, all 17 constructors), random documents fitting them, widths biased to thresholds of the layout; random path, focus target and interleaving (or prefix) of pulls up and down, compared with the lines printed from the start. Non-trivial: more than one line and a focus away from the start.",
        assumptions: &["texts, literals and indentations contain no control characters", "the lines from the start are right (C01)"],
    },
    Prop {
        id: "C04", run: p_layout::c04, quick: 120_000, thorough: 20, len: 1400, level: "exploration",
        rule: "Random notation sets (idiomatic and unrestricted, all 17 constructors), random documents fitting them, widths biased to thresholds of the layout; random paths (existing, hidden, out of range), targets and text offsets; the split point or error is compared with the recorded position of the node's first appearance in the reference layout. Non-trivial: the focus is not at the start of the document, or the path is invalid.",
        assumptions: &["texts, literals and indentations contain no control characters", "the reference printer reads the notation documentation correctly (written independently of the library's walker; also compared with the library's own oracle in C19)", "paths through a node displayed several times are judged by its first appearance; where the documentation leaves the occurrence open the case is skipped"],
    },
    Prop {
        id: "C05", run: p_lazy::c05, quick: 20_000, thorough: 20, len: 1400, level: "exploration",
        rule: "Random block-structured documents (lists, nested blocks, headed blocks, statements with choices), widths, focus and pull sequences; the nodes consulted after 0, some and all pulls are recorded. Non-trivial: at least one block with content lies outside the window and must stay closed.",
        assumptions: &["block = a child that the notation separates from its surroundings by hard newlines"],
    },
    Prop {
        id: "C06", run: p_layout::c06, quick: 100_000, thorough: 20, len: 1400, level: "exploration",
        rule: "Random notation sets (idiomatic and unrestricted, all 17 constructors), random documents fitting them, widths biased to thresholds of the layout, styled nodes, regions and indentations, styles in a free monoid, random focus; the style of every character is compared with the reference. Non-trivial: some compared line has two differently styled pieces.",
        assumptions: &["texts, literals and indentations contain no control characters", "the reference printer reads the notation documentation correctly (written independently of the library's walker; also compared with the library's own oracle in C19)"],
    },
    Prop {
        id: "C07", run: p_err::c07, quick: 200_000, thorough: 20, len: 1200, level: "exploration",
        rule: "Random validated notations on random documents that do not fit them, random focus and widths; the outcome is compared with the set of mismatches in the document and with those the displayed layout cannot avoid. Non-trivial: the document contains a mismatch reachable by printing.",
        assumptions: &["texts, literals and indentations contain no control characters", "the reference printer reads the notation documentation correctly (written independently of the library's walker; also compared with the library's own oracle in C19)", "content printed after an error is unspecified"],
    },
    Prop {
        id: "C08", run: p_err::c08, quick: 50_000, thorough: 20, len: 1200, level: "exploration",
        rule: "Random documents, focus, widths, pane layouts; for each the number of document (or window) operations is counted and one or more of them made to fail, each position in turn for short runs. Non-trivial: a run with at least four document (three window) operations; each different position at which a failure was injected counts once.",
        assumptions: &["texts, literals and indentations contain no control characters"],
    },
    Prop {
        id: "C09", run: p_valid::c09, quick: 1_000_000, thorough: 20, len: 300, level: "exploration",
        rule: "Random raw notations over all constructors with arbitrary nesting; validate() is compared with a reference decision procedure enumerating flaws, and the error must be one of them. Non-trivial: more than two constructors.",
        assumptions: &["a fold, Left, Right or child counts as separating what stands before it from what stands after it when flaws of order are judged"],
    },
    Prop {
        id: "C10", run: p_alg::c10, quick: 50_000, thorough: 20, len: 1200, level: "exploration",
        rule: "Random notation sets (idiomatic and unrestricted, all 17 constructors), random documents fitting them, widths biased to thresholds of the layout; a random sequence of meaning-preserving rewrites is applied to the notations and both versions are printed. Non-trivial: a rewrite other than an operator shorthand or an added empty notation, and a choice or several lines are shown.",
        assumptions: &["texts, literals and indentations contain no control characters"],
    },
    Prop {
        id: "C11", run: p_pane::c11, quick: 100_000, thorough: 20, len: 1500, level: "exploration",
        rule: "Random splits, nested, with fixed, dynamic and proportional sizes including zero and huge ones, in random windows; the rectangles drawn by differently filled panes are compared with exact integer arithmetic. Non-trivial: displayed without error and more than one cell is drawn.",
        assumptions: &[],
    },
    Prop {
        id: "C12", run: p_pane::c12, quick: 100_000, thorough: 20, len: 1500, level: "exploration",
        rule: "Random pane layouts with narrow and full-width fills, documents and styles, including invalid uses of dynamic sizes; every draw call is checked for bounds, pane, overlap, coverage and the full-width flag. Non-trivial: displayed without error and at least two panes have cells.",
        assumptions: &["a pane's text has no zero-width characters (known finding)"],
    },
    Prop {
        id: "C13", run: p_pane::c13, quick: 100_000, thorough: 20, len: 1500, level: "exploration",
        rule: "Random documents, focus paths, targets and heights, width strategies, splits and pane styles; all cells, styles and focus points are compared with a reference renderer on top of the reference printer. Non-trivial: displayed without error and more than one line shown.",
        assumptions: &["the reference printer reads the notation documentation correctly (written independently of the library's walker; also compared with the library's own oracle in C19)", "a pane's text has no zero-width characters (known finding)"],
    },
    Prop {
        id: "C14", run: p_pane::c14, quick: 100_000, thorough: 20, len: 1500, level: "exploration",
        rule: "Random sequences of draws and focus settings in any order on a plain-text window, compared with a grid; and random pane layouts drawn to it, compared with the recorded draws. Non-trivial: at least two characters drawn, and out of order, with a full-width one, or through panes.",
        assumptions: &["draws do not overlap and lie within the window"],
    },
    Prop {
        id: "C15", run: p_json::c15, quick: 400_000, thorough: 20, len: 500, level: "exploration",
        rule: "Random JSON values (nesting, unicode and escaped strings, extreme numbers) with comments, at widths biased to line widths, from random focus paths; parsed back and compared with a specification of the layout and colours. Non-trivial: some container stands on one line or is spread, or some comment wraps.",
        assumptions: &["numbers are finite"],
    },
    Prop {
        id: "C16", run: p_json::c16, quick: 400_000, thorough: 20, len: 500, level: "exploration",
        rule: "Random construction histories of sample trees (new, comment, style, override, take apart and rebuild, clone, reset) compared with a model after every step, then printed; random styles combined and labels looked up. Non-trivial: some child needs a separator or some node has a style.",
        assumptions: &[],
    },
    Prop {
        id: "C17", run: p_valid::c17, quick: 200_000, thorough: 20, len: 300, level: "exploration",
        rule: "Random raw notations over all constructors and check positions, unicode strings and extreme indices, through serde_json as text, pretty bytes, reader and value tree, with string and structured labels and conditions; compared for equality, validated and (whole documents) reprinted. Non-trivial: more than one constructor, or a whole document.",
        assumptions: &["serde and serde_json themselves are correct"],
    },
    Prop {
        id: "C18", run: p_lazy::c18, quick: 1_000, thorough: 20, len: 700, level: "exploration",
        rule: "Documents scaled along one dimension (lines, depth, choices, blocks, fan-out, cons lists, hidden children) up to 20000 elements (120000 in the thorough tier) printed on an 8 MB stack; random documents with texts, literals and indentations around and beyond 65535 columns; the largest windows and enormous pane sizes. Compared with the reference printer; accesses compared with a quarter-sized document. Non-trivial: at least 400 elements, or a line wider than 65535 columns together with a choice, or a document pane.",
        assumptions: &["the reference printer reads the notation documentation correctly (written independently of the library's walker; also compared with the library's own oracle in C19)", "at width 65535 itself documents with lines that wide are skipped: too wide to measure counts as 65535"],
    },
    Prop {
        id: "C19", run: p_layout::c19, quick: 60_000, thorough: 20, len: 1400, level: "exploration",
        rule: "Random notation sets (idiomatic and unrestricted, all 17 constructors), random documents fitting them, widths biased to thresholds of the layout; the published oracle's text is compared with printing to a string, and str_width with unicode-width on random strings. Non-trivial: the layout shows a choice and has several lines.",
        assumptions: &["no text or empty string after an end-of-line in the layout"],
    },
    Prop {
        id: "C20", run: p_layout::c20, quick: 100_000, thorough: 20, len: 1400, level: "exploration",
        rule: "Random notation sets (idiomatic and unrestricted, all 17 constructors), random documents fitting them, widths biased to thresholds of the layout, with wide, combining, joined and ligature texts, every split offset; accessors are recomputed from the segments. Non-trivial: some line has more than one segment.",
        assumptions: &["the display width of a string is what the unicode-width crate says", "halves of a split text add up to the whole's width, their own width is not prescribed"],
    },
    Prop {
        id: "C21", run: p_misc::c21, quick: 30_000, thorough: 20, len: 1800, level: "exploration",
        rule: "Random documents and two to seven printings of them (width, focus, root style, one document printed several times over), with starts, pulls up and down, drops, restarts, whole prints, failing prints and the oracle in random order, then again after edits that keep the nodes' ids; now and then on several threads at once. Every line of every printing is compared with the reference printer. Non-trivial: several printings were in progress at once, at least one of several lines with choices.",
        assumptions: &["texts, literals and indentations contain no control characters", "the display width of a string is what the unicode-width crate says", "the reference printer reads the notation documentation correctly (written independently of the library's walker; also compared with the library's own oracle in C19)", "threads are scheduled by the operating system, not enumerated"],
    },
    Prop {
        id: "C22", run: p_misc::c22, quick: 200_000, thorough: 20, len: 300, level: "exploration",
        rule: "Random raw notations whose literals, indices, labels and conditions carry unique numbers: the numbers displayed, in order, are compared with those in the notation, and a notation changed in one place must be displayed differently; every kind of error with random payload, its message, conversion and cause; random positions and sizes. Non-trivial: a notation with more than one number or two constructors, every case about errors, positions with differing row and column.",
        assumptions: &["whether the style label of an indentation is displayed is left open", "additions of a position and a size do not overflow"],
    },
    Prop {
        id: "C23", run: p_demo::c23, quick: 8_000, thorough: 20, len: 900, level: "exploration",
        rule: "Random JSON texts (nesting, white space, escapes, unicode, extreme numbers, repeated keys, now and then damaged) and command lines, given to the formatter as a process; exit status, standard output with its colour codes and standard error are compared with the meaning of the file and with a specification of the layout. Non-trivial: some container with content is printed, or the formatter has to refuse.",
        assumptions: &["serde_json reads JSON correctly", "numbers are doubles, and reading one may err in its last digit"],
    },
];

/// Long runs of one character are abbreviated.
fn shorten(msg: &str) -> String {
    let mut out = String::new();
    let mut it = msg.chars().peekable();
    while let Some(c) = it.next() {
        let mut n = 1;
        while it.peek() == Some(&c) {
            it.next();
            n += 1;
        }
        if n > 80 {
            out.push_str(&format!("{c}{c}{c}...[{n} times]"));
        } else {
            (0..n).for_each(|_| out.push(c));
        }
    }
    out
}

/// Whether this is the build without debug assertions and overflow checks,
/// which check.sh runs on further cases after the checked one.
const PLAIN: bool = !cfg!(debug_assertions);

fn usage() -> ! {
    eprintln!("usage: ppp-check ID [--replay FILE] [--scale X] [--out DIR]");
    std::process::exit(2)
}

fn write_replay(out_dir: &str, id: &str, seed: u64, data: &[u32], msg: &str) -> String {
    let dir = format!("{out_dir}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-seed{seed}{}.txt", if PLAIN { "-plain" } else { "" });
    let choices: Vec<String> = data.iter().map(|v| v.to_string()).collect();
    let text = format!("property: {id}\nchoices: {}\n\n{msg}\n", choices.join(" "));
    std::fs::write(&path, text).expect("replay file");
    path
}

fn write_evidence(out_dir: &str, id: &str, evidence: &serde_json::Value) {
    let _ = std::fs::create_dir_all(format!("{out_dir}/evidence"));
    std::fs::write(
        format!("{out_dir}/evidence/{id}.json"),
        serde_json::to_string_pretty(evidence).unwrap() + "\n",
    )
    .expect("write evidence");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        usage();
    }
    let id = &args[1];
    let mut replay = None;
    let mut scale = 1.0f64;
    let mut out_dir = "/verif".to_string();
    let mut i = 2;
    while i < args.len() {
        match (args[i].as_str(), args.get(i + 1)) {
            ("--replay", Some(f)) => replay = Some(f.clone()),
            ("--scale", Some(x)) => scale = x.parse().unwrap_or_else(|_| usage()),
            ("--out", Some(d)) => out_dir = d.clone(),
            _ => usage(),
        }
        i += 2;
    }
    let p: &'static Prop = match PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => usage(),
    };
    engine::install_panic_hook();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);

    if std::env::var_os(supervise::STATE_VAR).is_none() {
        let start = Instant::now();
        let sup = supervise::Supervisor::new(&args[1..]);
        match sup.run(p.id, replay.is_some()) {
            supervise::End::Exit(c) => {
                sup.cleanup();
                std::process::exit(c)
            }
            supervise::End::Crash { how, data } => {
                let path = match (data, replay) {
                    (Some(data), _) => {
                        let msg = format!("a case does not survive: {how}\n{}", sup.description());
                        println!("{msg}");
                        let path = write_replay(&out_dir, p.id, seed, &data, &msg);
                        write_evidence(
                            &out_dir,
                            p.id,
                            &serde_json::json!({
                                "property": p.id,
                                "tier": if thorough { "thorough" } else { "quick" },
                                "seed": seed,
                                "level": p.level,
                                "coverage": {
                                    "evaluations": 1,
                                    "distinct_nontrivial": 1,
                                    "rule": "a crash ended the run early; only the crashing case is counted",
                                    "samples": [msg],
                                },
                                "wall_s": start.elapsed().as_secs_f64(),
                                "violations": 1,
                            }),
                        );
                        path
                    }
                    (None, Some(f)) => {
                        println!("{how}");
                        f
                    }
                    (None, None) => unreachable!(),
                };
                sup.cleanup();
                println!("VIOLATION property={} replay={}", p.id, path);
                std::process::exit(1)
            }
        }
    }

    if let Some(f) = replay {
        let text = std::fs::read_to_string(&f).expect("replay file");
        let data: Vec<u32> = text
            .lines()
            .find_map(|l| l.strip_prefix("choices: "))
            .expect("replay file has no `choices:` line")
            .split_whitespace()
            .map(|x| x.parse().expect("choice"))
            .collect();
        engine::LIVE.store(true, std::sync::atomic::Ordering::Relaxed);
        let h = std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn(move || run_case(p, &data, true, thorough))
            .unwrap();
        let out = h.join().unwrap();
        match out.res {
            Ok(_) => println!("no violation"),
            Err(e) => {
                println!("{}", shorten(&e));
                println!("VIOLATION property={} replay={f}", p.id);
                std::process::exit(1)
            }
        }
        return;
    }

    let start = Instant::now();
    // Other cases than those of the checked build.
    let run_seed = if PLAIN { seed ^ 0x706c_6169_6e00 } else { seed };
    let out = run_prop(p, run_seed, thorough, scale);
    let wall = start.elapsed().as_secs_f64();
    let cov = &out.cov;
    let distinct = cov.distinct.len() as u64 + cov.sub_nontrivial;
    let mut evidence = serde_json::json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": p.level,
        "coverage": {
            "evaluations": cov.evals,
            "distinct_nontrivial": distinct,
            "rule": p.rule,
            "samples": cov.samples.iter().take(4).map(|s| shorten(s)).collect::<Vec<_>>(),
            "cases": cov.cases,
            "discarded_cases": cov.discarded,
            "nontrivial_cases": cov.nontrivial,
            "classification": cov.labels,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": if out.failure.is_some() { 1 } else { 0 },
    });
    if PLAIN {
        // Added to what the checked build found.
        if let Some(mut first) = std::fs::read(format!("{out_dir}/evidence/{}.json", p.id))
            .ok()
            .and_then(|text| serde_json::from_slice::<serde_json::Value>(&text).ok())
        {
            first["coverage"]["without_debug_assertions"] = serde_json::json!({
                "evaluations": cov.evals,
                "distinct_nontrivial": distinct,
                "cases": cov.cases,
                "discarded_cases": cov.discarded,
                "wall_s": wall,
            });
            first["violations"] = evidence["violations"].take();
            evidence = first;
        }
    }
    write_evidence(&out_dir, p.id, &evidence);
    // Fixed inputs on which the tree is known to break the property.
    let probes: &[(&str, &str, fn() -> Option<String>)] = &[
        ("C13", "zero-width", p_pane::probe_zero_width),
    ];
    for (_, listed_as, probe) in probes.iter().filter(|(id, ..)| *id == p.id && !PLAIN) {
        if let Some(what) = probe() {
            let listed = std::fs::read_to_string(format!("{out_dir}/known_findings.txt"))
                .unwrap_or_default()
                .lines()
                .any(|l| l.starts_with(&format!("finding: property={} {listed_as}", p.id)));
            if listed {
                println!("KNOWN-FINDING: property={} {what}", p.id);
            } else {
                let path = write_replay(&out_dir, p.id, seed, &[], &what);
                println!("VIOLATION property={} replay={path}", p.id);
                std::process::exit(1);
            }
        }
    }
    println!(
        "{}{}: {} cases ({} discarded), {} evaluations, {} distinct non-trivial, {:.1} s",
        p.id, if PLAIN { " without debug assertions" } else { "" }, cov.cases, cov.discarded, cov.evals, distinct, wall
    );
    for (l, n) in &cov.labels {
        println!("    {:>9}  {:>5.1}%  {}", n, 100.0 * *n as f64 / cov.cases.max(1) as f64, l);
    }
    if let Some(f) = out.failure {
        let msg = shorten(&f.msg);
        let path = write_replay(&out_dir, p.id, seed, &f.data, &msg);
        println!("{msg}");
        println!("VIOLATION property={} replay={}", p.id, path);
        std::process::exit(1);
    }
}
