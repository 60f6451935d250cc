//! Runs cases through the real scanner, parser and resolver and writes what
//! happened in the shape that the specification (spec/Pipeline.tla) writes.
//!
//!   harness cases IN OUT    IN: one JSON case per line, OUT: one outcome each
//!   harness total IN OUT I N    part I of N of grids: does every text get a verdict?
//!   harness debug IN OUT    the programs of the cases as the command line prints them
//!   harness pure IN OUT     the same cases repeatedly, in other orders, threads
//!   harness table           clusters.json on stdin against Rust's Unicode data
//!   harness classify        characters on stdin as a table like clusters.json
//!   harness one MODE FILE   one text, outcome by exit status (for deep nests)
mod tree;

use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use serde_json::{json, Value};
use unicode_segmentation::UnicodeSegmentation;

use whitespace::ast::{Expr, Stmt};
use whitespace::error::ParseError;
use whitespace::parser;
use whitespace::resolver::Resolver;
use whitespace::scanner::Scanner;

static TICK: AtomicU64 = AtomicU64::new(0);

fn text_of(line: &Value) -> (String, bool) {
    let s = line["s"].as_array().expect("s");
    let n = line["n"].as_array().expect("n");
    let mut text = String::new();
    let mut clusters: Vec<&str> = Vec::new();
    for (c, k) in s.iter().zip(n) {
        let c = c.as_str().expect("cluster");
        for _ in 0..k.as_u64().expect("count") {
            text.push_str(c);
            clusters.push(c);
        }
    }
    let faithful = text.graphemes(true).eq(clusters.into_iter());
    (text, faithful)
}

fn errors(e: &ParseError) -> Value {
    Value::Array(
        e.causes
            .iter()
            .map(|c| {
                json!({"l": c.source_loc.line, "c": c.source_loc.column,
                       "h": c.token.is_some(),
                       "t": c.token.clone().unwrap_or_default(),
                       "m": c.message})
            })
            .collect(),
    )
}

/// Scanning alone: tokens, or causes.
fn scan(text: &str) -> Result<Value, Value> {
    let mut scanner = Scanner::new(text);
    let result = match scanner.scan_tokens() {
        Ok(tokens) => Ok(Value::Array(
            tokens
                .iter()
                .map(|t| {
                    // Where the lexeme lies in the text.
                    let at = t.lexeme.as_ptr() as usize - text.as_ptr() as usize;
                    let mut v = json!({"k": format!("{:?}", t.token_type),
                           "x": t.lexeme, "l": t.line, "c": t.column,
                           "at": at});
                    if let Some(s) = t.string_literal {
                        v["v"] = json!(s);
                    }
                    if let Some(f) = t.float_literal {
                        v["f"] = tree::bits(f);
                    }
                    v
                })
                .collect(),
        )),
        Err(e) => Err(errors(&e)),
    };
    result
}

fn parse(mode: &str, text: &str) -> Result<Vec<Stmt>, ParseError> {
    match mode {
        "file" => parser::parse(text),
        "repl" => parser::parse_repl_line(text),
        _ => unreachable!(),
    }
}

fn outcome(mode: &str, text: &str, resolver: &mut Resolver) -> Value {
    let tokens = scan(text);
    let by_scan = tokens.is_err();
    let mut out = json!({"by": "", "toks": [], "errs": [], "ast": [], "bind": []});
    match tokens {
        Ok(t) => out["toks"] = t,
        // Only used to compare with what parsing reports.
        Err(e) => out["scan_errs"] = e,
    }
    let reject = |out: &mut Value, by: &str, e: &ParseError| {
        out["by"] = json!(by);
        out["errs"] = errors(e);
    };
    let syntax = if by_scan { "scan" } else { "parse" };
    if mode == "expr" {
        let parsed: Result<Expr, ParseError> = parser::parse_expression(text);
        match parsed {
            Err(e) => reject(&mut out, syntax, &e),
            Ok(e) => out["ast"] = json!([tree::expr(&e)]),
        }
        return out;
    }
    match parse(mode, text) {
        Err(e) => reject(&mut out, syntax, &e),
        Ok(stmts) => {
            let before = tree::stmts(&stmts);
            match resolver.resolve(stmts) {
                Err(e) => reject(&mut out, "resolve", &e),
                Ok(code) => {
                    if tree::stmts(&code.statements) != before {
                        out["changed"] = tree::stmts(&code.statements);
                    }
                    out["bind"] = tree::bindings(&code.statements);
                }
            }
            out["ast"] = before;
        }
    }
    if by_scan && out["by"] != "scan" {
        // Parsing accepted what scanning rejects.
        out["by"] = json!("inconsistent");
    }
    out
}

fn run_case(case: &Value) -> Value {
    let mode = case["mode"].as_str().expect("mode");
    let mut resolver = Resolver::new();
    let mut res = Vec::new();
    for line in case["lines"].as_array().expect("lines") {
        let (text, faithful) = text_of(line);
        if !faithful {
            return json!({"id": case["id"], "skip": true});
        }
        let r = catch_unwind(AssertUnwindSafe(|| outcome(mode, &text, &mut resolver)));
        match r {
            Ok(v) => res.push(v),
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                res.push(json!({"by": "panic", "msg": m}));
                break;
            }
        }
    }
    json!({"id": case["id"], "res": res})
}

fn read_cases(path: &str) -> Vec<Value> {
    let f = std::io::BufReader::new(std::fs::File::open(path).expect("open cases"));
    f.lines()
        .map(|l| {
            let v: Value = serde_json::from_str(&l.expect("line")).expect("json");
            // TLC writes a case as a JSON string holding the JSON.
            match v {
                Value::String(s) => serde_json::from_str(&s).expect("json"),
                v => v,
            }
        })
        .collect()
}

/// A case that takes this long is taken to loop.
fn watchdog(seconds: u64) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut same = 0;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = TICK.load(Ordering::SeqCst);
            same = if now == last { same + 1 } else { 0 };
            last = now;
            if same >= seconds * 2 {
                std::process::exit(42);
            }
        }
    });
}

/// Deeply nested cases need room; `one` is run on the normal stack.
fn with_room(f: impl FnOnce() + Send + 'static) {
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(f).expect("thread");
    if t.join().is_err() {
        std::process::exit(2);
    }
}

fn cases(input: &str, output: &str) {
    let cases = read_cases(input);
    let mut out = BufWriter::new(std::fs::File::create(output).expect("create"));
    watchdog(20);
    for case in &cases {
        TICK.fetch_add(1, Ordering::SeqCst);
        let v = run_case(case);
        writeln!(out, "{}", v).expect("write");
        out.flush().expect("flush");
    }
}

fn everything(case: &Value) -> String {
    run_case(case).to_string()
}

/// The same cases again: repeated, in reverse, after unrelated ones, on many
/// threads at the same time.  Writes the ids whose result is not always the same.
fn pure(input: &str, output: &str) {
    let cases = Arc::new(read_cases(input));
    watchdog(60);
    let first: Arc<Vec<String>> = Arc::new(
        cases
            .iter()
            .map(|c| {
                TICK.fetch_add(1, Ordering::SeqCst);
                everything(c)
            })
            .collect(),
    );
    let differs: Arc<Mutex<Vec<(usize, &'static str)>>> = Arc::new(Mutex::new(Vec::new()));
    let mut runs = 0u64;
    for i in (0..cases.len()).rev() {
        TICK.fetch_add(1, Ordering::SeqCst);
        // Long texts, made of many, are also done again at once.
        let big = cases[i]["id"].as_str().unwrap_or("").starts_with("big");
        for _ in 0..if big { 12 } else { 2 } {
            TICK.fetch_add(1, Ordering::SeqCst);
            runs += 1;
            if everything(&cases[i]) != first[i] {
                differs.lock().unwrap().push((i, "again, in another order"));
                break;
            }
        }
    }
    // Many more parses in between.
    for i in 0..70_000u32 {
        if i % 1000 == 0 {
            TICK.fetch_add(1, Ordering::SeqCst);
        }
        let t = ["a\n", "var b = 1\n", ")\n", "f {a: 1}\n", "@"][i as usize % 5];
        let _ = parse("file", t).and_then(|s| Resolver::new().resolve(s));
    }
    for i in 0..cases.len() {
        TICK.fetch_add(1, Ordering::SeqCst);
        runs += 1;
        if everything(&cases[i]) != first[i] {
            differs.lock().unwrap().push((i, "after many other texts"));
        }
    }
    let threads = 8;
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let (cases, first, differs) = (cases.clone(), first.clone(), differs.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let n = cases.len();
                    for j in 0..n {
                        // Half of the threads do the same case at about the same
                        // time, the others go their own way.
                        let i = if t % 2 == 0 { j } else { (j * 7 + t * 131) % n };
                        TICK.fetch_add(1, Ordering::SeqCst);
                        if everything(&cases[i]) != first[i] {
                            differs.lock().unwrap().push((i, "on several threads"));
                        }
                    }
                })
                .expect("thread")
        })
        .collect();
    for h in handles {
        let _ = h.join();
    }
    runs += (threads * cases.len()) as u64;
    let d: Vec<Value> = differs
        .lock()
        .unwrap()
        .iter()
        .map(|(i, how)| json!({"id": cases[*i]["id"], "how": how}))
        .collect();
    std::fs::write(output, json!({"differs": d, "runs": runs}).to_string()).expect("write");
}

/// Whether every way to handle a text ends with a verdict.  None if so.
fn no_verdict(text: &str, session: &mut Resolver) -> Option<String> {
    let bad = |e: &ParseError| e.causes.is_empty();
    let r = catch_unwind(AssertUnwindSafe(|| {
        if matches!(Scanner::new(text).scan_tokens(), Err(e) if bad(&e)) {
            return Some("scanning fails without a cause".to_owned());
        }
        if matches!(parser::parse_expression(text), Err(e) if bad(&e)) {
            return Some("parsing an expression fails without a cause".to_owned());
        }
        for mode in ["file", "repl"] {
            let mut fresh = Resolver::new();
            for resolver in [&mut fresh, &mut *session] {
                let r = parse(mode, text).and_then(|s| resolver.resolve(s).map(|_| ()));
                if matches!(r, Err(e) if bad(&e)) {
                    return Some(format!("{mode}: fails without a cause"));
                }
            }
        }
        None
    }));
    match r {
        Ok(v) => v,
        Err(p) => Some(format!(
            "panics: {}",
            p.downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default()
        )),
    }
}

/// All texts of grids (every slot's alternatives combined).  The file OUT.at
/// holds the text under way, for when the process does not survive it.
fn total(input: &str, output: &str, part: usize, parts: usize) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(input).expect("read"))
        .expect("json");
    let at = std::fs::File::create(format!("{output}.at")).expect("create");
    watchdog(15);
    let mut bad = Vec::new();
    let mut runs = 0u64;
    let mut session = Resolver::new();
    for grid in v.as_array().expect("grids") {
        let slots: Vec<Vec<&str>> = grid["slots"]
            .as_array()
            .expect("slots")
            .iter()
            .map(|s| s.as_array().expect("slot").iter().map(|a| a.as_str().unwrap()).collect())
            .collect();
        let size: usize = slots.iter().map(|s| s.len()).product();
        for q in (part..size).step_by(parts) {
            let mut text = String::new();
            let mut rest = q;
            for s in &slots {
                text.push_str(s[rest % s.len()]);
                rest /= s.len();
            }
            let mut note = (text.len() as u32).to_le_bytes().to_vec();
            note.extend_from_slice(text.as_bytes());
            std::os::unix::fs::FileExt::write_all_at(&at, &note, 0).expect("note");
            TICK.fetch_add(1, Ordering::SeqCst);
            if runs % 16 == 0 {
                session = Resolver::new();
            }
            runs += 1;
            if let Some(how) = no_verdict(&text, &mut session) {
                bad.push(json!({"text": text, "how": how}));
                session = Resolver::new();
                if bad.len() >= 50 {
                    break;
                }
            }
        }
    }
    std::fs::write(output, json!({"bad": bad, "runs": runs}).to_string()).expect("write");
}

/// The accepted programs of the lines of every case, printed.
fn debug(input: &str, output: &str) {
    let mut out = BufWriter::new(std::fs::File::create(output).expect("create"));
    for case in &read_cases(input) {
        let mode = case["mode"].as_str().expect("mode");
        let mut resolver = Resolver::new();
        let mut texts: Vec<Value> = Vec::new();
        for line in case["lines"].as_array().expect("lines") {
            let (text, _) = text_of(line);
            let r = catch_unwind(AssertUnwindSafe(|| {
                parse(mode, &text).and_then(|s| resolver.resolve(s))
            }));
            texts.push(match r {
                Ok(Ok(code)) => json!(format!("{:#?}", code.statements)),
                Ok(Err(_)) => Value::Null,
                Err(_) => json!("panic"),
            });
        }
        writeln!(out, "{}", json!({"id": case["id"], "out": texts})).expect("write");
    }
}

/// The cluster table of the specification against Rust's character data.
fn table() {
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).expect("stdin");
    let v: Value = serde_json::from_str(&s).expect("json");
    let mut bad = 0;
    for (class, letter, word) in
        [("letters", true, true), ("digits", false, true), ("other", false, false)]
    {
        for c in v[class].as_array().expect("class") {
            let c = c.as_str().unwrap();
            let f = c.chars().next().unwrap();
            let ok = c.graphemes(true).count() == 1
                && (f.is_alphabetic() || f == '_') == letter
                && (f.is_alphanumeric() || f == '_') == word
                && !(c.is_ascii() && (f.is_ascii_alphanumeric()));
            if !ok {
                println!("wrong class: {:?} in {}", c, class);
                bad = 1;
            }
        }
    }
    std::process::exit(bad);
}

/// A table of those of the given characters that are clusters of their own.
fn classify() {
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).expect("stdin");
    let chars: Vec<String> = serde_json::from_str(&s).expect("json");
    let mut table = json!({"cr": "\r", "crlf": "\r\n", "letters": [], "digits": [], "other": []});
    for c in chars {
        let among = format!("a{c}1{c}{c}_ {c}\n");
        let split: Vec<&str> = among.graphemes(true).collect();
        if split != ["a", &c, "1", &c, &c, "_", " ", &c, "\n"] || c.is_ascii() {
            continue;
        }
        let f = c.chars().next().unwrap();
        let class = if f.is_alphabetic() {
            "letters"
        } else if f.is_alphanumeric() {
            "digits"
        } else {
            "other"
        };
        table[class].as_array_mut().unwrap().push(json!(c));
    }
    println!("{table}");
}

/// One text; prints the verdict.
fn one(mode: &str, path: &str) {
    let text = std::fs::read_to_string(path).expect("read");
    let mut resolver = Resolver::new();
    let rejected = match mode {
        "scan" => Scanner::new(&text).scan_tokens().map(|t| t.len()).map_err(|e| e.causes.len()),
        "expr" => parser::parse_expression(&text).map(|_| 1).map_err(|e| e.causes.len()),
        _ => parse(mode, &text)
            .and_then(|s| resolver.resolve(s))
            .map(|c| c.statements.len())
            .map_err(|e| e.causes.len()),
    };
    match rejected {
        Ok(n) => println!("accepted {n}"),
        Err(n) => println!("rejected {n}"),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match args[1].as_str() {
        "cases" => with_room(move || cases(&args[2], &args[3])),
        "pure" => with_room(move || pure(&args[2], &args[3])),
        "total" => with_room(move || {
            let n = |i: usize| args[i].parse().expect("number");
            total(&args[2], &args[3], n(4), n(5))
        }),
        "debug" => with_room(move || debug(&args[2], &args[3])),
        "table" => table(),
        "classify" => classify(),
        "one" => one(&args[2], &args[3]),
        _ => std::process::exit(2),
    }
}
