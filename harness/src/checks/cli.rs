//! The command line program: what it prints is what the library computes in the context of the chosen type.
use crate::fw::*;
use crate::gen::*;
use prexel::binary::{binary_number_splitter, Binary};
use prexel::complex::Complex;
use prexel::context::{Config, DefaultContext};
use prexel::decimal::Decimal;
use prexel::evaluator::Evaluator;
use prexel::tokenizer::Tokenizer;
use std::fmt::{Debug, Display};
use std::process::{Command, Stdio};

const TYPES: [&str; 5] = ["decimal", "float", "integer", "complex", "binary"];

struct Shown {
    code: Option<i32>,
    out: String,
    err: String,
}

/// Runs the program with an unreadable terminal.
fn exec(binary: &str, args: &[&str]) -> Shown {
    let o = Command::new(binary)
        .args(args)
        .env_remove("VP_EXPLORE")
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .output()
        .expect("cannot start the program");
    Shown {
        code: o.status.code(),
        out: plain(&String::from_utf8_lossy(&o.stdout)),
        err: plain(&String::from_utf8_lossy(&o.stderr)),
    }
}

/// The text without colors.
fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\x1b' && it.peek() == Some(&'[') {
            while let Some(c) = it.next() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

type Answer = Box<dyn Fn(&str) -> Result<String, String>>;

fn answer<N>(ev: Evaluator<'static, N, DefaultContext<'static, N>>) -> Answer
where
    N: Display + Debug + Clone + std::str::FromStr + 'static,
{
    let ev: &'static Evaluator<'static, N, DefaultContext<'static, N>> = Box::leak(Box::new(ev));
    Box::new(move |s| {
        let s: &'static str = Box::leak(s.to_string().into_boxed_str());
        ev.eval(s).map(|v| v.to_string()).map_err(|e| e.to_string())
    })
}

fn library(t: &str) -> Answer {
    let c = || Config::new().with_implicit_mul(true);
    match t {
        "decimal" => answer::<Decimal>(Evaluator::with_context(DefaultContext::with_config_decimal(c()))),
        "float" => answer::<f64>(Evaluator::with_context(DefaultContext::with_config_unchecked(c()))),
        "integer" => answer::<i128>(Evaluator::with_context(DefaultContext::with_config_checked(c()))),
        "complex" => answer::<Complex<f64>>(Evaluator::with_context(DefaultContext::with_config_complex(c().with_complex_number(true)))),
        _ => answer::<Binary>(Evaluator::with_context_and_tokenizer(
            DefaultContext::with_config_binary(c()),
            Tokenizer::with_splitter(binary_number_splitter()),
        )),
    }
}

fn listing<N: Display + 'static>(cx: &DefaultContext<'static, N>, kind: &str) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = Vec::new();
    match kind {
        "constants" => v.extend(cx.constants().iter().map(|(n, x)| (n.to_string(), x.to_string()))),
        "functions" => v.extend(cx.functions().iter().map(|(n, f)| (n.to_string(), f.description().unwrap_or_default().to_string()))),
        _ => {
            v.extend(cx.binary_functions().iter().map(|(n, f)| (n.to_string(), f.description().unwrap_or_default().to_string())));
            v.extend(cx.unary_functions().iter().map(|(n, f)| (n.to_string(), f.description().unwrap_or_default().to_string())));
        }
    }
    v
}

fn library_listing(t: &str, kind: &str) -> Vec<(String, String)> {
    match t {
        "decimal" => listing::<Decimal>(&DefaultContext::new_decimal(), kind),
        "float" => listing::<f64>(&DefaultContext::new_unchecked(), kind),
        "integer" => listing::<i128>(&DefaultContext::new_checked(), kind),
        "complex" => listing::<Complex<f64>>(&DefaultContext::new_complex(), kind),
        _ => listing::<Binary>(&DefaultContext::new_binary(), kind),
    }
}

fn squeeze(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// Compares a run with what the library says.
fn judge(r: &Shown, want: &Result<String, String>) -> Option<String> {
    let bad = match want {
        Ok(v) => r.code != Some(0) || r.out.trim_end_matches(['\n', '\r']) != v || !r.err.trim().is_empty(),
        Err(_) => r.code.is_none() || r.code == Some(101) || !r.out.trim().is_empty() || r.err.trim().is_empty(),
    };
    bad.then(|| format!("want {:?}: stdout {:?} stderr {:?} code {:?}", want, r.out, r.err, r.code))
}

pub fn c22(run: &Run) {
    let binary = std::env::var("VP_EVAL").expect("VP_EVAL");
    let alphabets: [&[&str]; 5] = [
        &["1", "2.5", "7", "(", ")", "[", "+", "-", "*", "/", "^", "mod", "!", "pi", "max", ",", " ", "x"],
        &["1", "2.5", "7", "(", ")", "{", "+", "-", "*", "/", "^", "mod", "!", "pi", "sum", ",", " ", "x"],
        &["1", "2.5", "7", "(", ")", "[", "+", "-", "*", "/", "^", "mod", "!", "pi", "avg", ",", " ", "x"],
        &["1", "2.5", "7", "(", ")", "[", "+", "-", "*", "/", "^", "i", "!", "pi", "sqrt", ",", " ", "x"],
        &["1", "b10", "7", "(", ")", "[", "+", "-", "~", "&", "|", "b", "<<", "and", "==", "110", " ", "x"],
    ];
    let len = run.pick(3, 4);
    for (t, alpha) in TYPES.iter().zip(alphabets) {
        let n = alpha.len();
        let items = raw_prefixes(n, 2);
        run.par(&items, || library(t), |w, lib, it| {
            raw_dfs(w, n, it, len, &mut |w, ix| {
                let s: String = ix.iter().map(|i| alpha[*i]).collect();
                let mut args = vec!["eval", "--type", t];
                if ix.len() == 2 {
                    args.push("--no-color");
                }
                args.push("--");
                args.push(&s);
                w.begin(&format!("eval -t {} {}", t, s));
                let r = exec(&binary, &args);
                w.end();
                if let Some(d) = judge(&r, &lib(&s)) {
                    w.violation(format!("eval -t {} {:?}", t, s), d);
                }
            });
        });
    }
    run.bound("expressions", format!("every sequence of up to {} of 18 fragments, for each of the 5 types", len));

    // values and shapes that the fragments do not reach
    let texts: Vec<(usize, String)> = {
        let mut v: Vec<String> = [
            "", " ", "\t1\n+ 2", "1/3", "2/3", "10/4", "-7/2", "-7 mod 3", "0.1+0.2", "1/0", "0/0", "2^0.5", "2^-1", "2^100", "2^126 * 2", "1e5", "5!", "30!", "sin(30)",
            "cos 60", "max(1,2,3)", "min()", "avg(1,2)", "sum(1,2.5)", "sqrt(2)", "sqrt(-4)", "(1+2i)*(3-4i)", "i*i", "2pi", "e", "(2)(3)", "2(3)", "1,2", "b101 | b10", "1 << 127",
            "1 << 128", "1 << -1", "~5", "101 & 110", "4 + b", "ñ", "1 + 🦀", "'1'", "\"1\"", "$x", "=", "x = 3", "--1", "-(-1)", "1.", ".5", "00012", "9999999999999999999999999999",
            "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "0.0000000000000000000000000001", "79228162514264337593543950335 + 1", "PI", "Max(1,2)", "1 MOD 2",
        ]
        .iter()
        .map(|s| s.to_string())
        .collect();
        for k in [10usize, 200, 1000] {
            v.push(format!("{}1{}", "(".repeat(k), ")".repeat(k)));
            v.push(vec!["1"; k].join("+"));
            v.push("-".repeat(k) + "1");
        }
        (0..TYPES.len()).flat_map(|t| v.clone().into_iter().map(move |s| (t, s))).collect()
    };
    run.par(&texts, || (0..TYPES.len()).map(|t| library(TYPES[t])).collect::<Vec<_>>(), |w, libs, (t, s)| {
        let ty = TYPES[*t];
        let eq = format!("--type={}", ty);
        // every way to write the options
        let mut forms: Vec<Vec<&str>> = vec![
            vec!["eval", "-t", ty, "--", s],
            vec!["eval", &eq, "--no-color", "--", s],
            vec!["--no-color", "eval", "--type", ty, "--", s],
        ];
        if !s.starts_with('-') {
            forms.push(vec!["eval", s, "-t", ty]);
            forms.push(vec!["eval", s, "--no-color", &eq]);
        }
        if ty == "decimal" {
            forms.push(vec!["eval", "--", s]);
            forms.push(vec!["--no-color", "eval", "--", s]);
        }
        let want = libs[*t](s);
        for f in forms {
            w.states += 1;
            w.transitions += 1;
            let text = format!("{:?}", f);
            let text: String = text.chars().take(120).collect();
            w.begin(&text);
            let r = exec(&binary, &f);
            w.end();
            if let Some(d) = judge(&r, &want) {
                w.violation(text, d);
            }
        }
    });
    run.bound("texts", format!("{} texts, 5 types, up to 7 ways to write the options", texts.len() / TYPES.len()));

    // listings
    let kinds = ["constants", "operators", "functions"];
    let mut lists: Vec<(Option<&str>, &str, bool)> = Vec::new();
    for k in kinds {
        for nc in [false, true] {
            lists.push((None, k, nc));
            lists.extend(TYPES.iter().map(|t| (Some(*t), k, nc)));
        }
    }
    run.par(&lists, || (), |w, _, (t, kind, nc)| {
        w.states += 1;
        w.transitions += 1;
        let mut args = vec![*kind];
        if let Some(t) = t {
            args.extend(["-t", t]);
        }
        if *nc {
            args.push("--no-color");
        }
        let text = format!("{:?}", args);
        w.begin(&text);
        let r = exec(&binary, &args);
        w.end();
        let mut want: Vec<String> = library_listing(t.unwrap_or("decimal"), kind).iter().map(|(n, d)| squeeze(&format!("{} {}", n, d))).collect();
        let mut got: Vec<String> = r.out.lines().map(squeeze).filter(|l| !l.is_empty()).collect();
        want.sort();
        got.sort();
        if r.code != Some(0) || !r.err.trim().is_empty() || got != want {
            let missing: Vec<_> = want.iter().filter(|l| !got.contains(l)).take(5).collect();
            let extra: Vec<_> = got.iter().filter(|l| !want.contains(l)).take(5).collect();
            w.violation(text, format!("code {:?}, missing {:?}, unexpected {:?} stderr {:?}", r.code, missing, extra, r.err));
        }
    });
    // an unknown type is refused
    let wrong = ["", "Decimal", "int", "decimals", "float ", "f64"];
    run.par(&wrong, || (), |w, _, t| {
        for args in [vec!["eval", "-t", t, "1"], vec!["constants", "-t", t], vec!["operators", "-t", t], vec!["functions", "-t", t], vec!["repl", "-t", t]] {
            w.states += 1;
            w.transitions += 1;
            let text = format!("{:?}", args);
            w.begin(&text);
            let r = exec(&binary, &args);
            w.end();
            if r.code == Some(0) || r.code.is_none() || r.code == Some(101) || !r.out.is_empty() || r.err.trim().is_empty() {
                w.violation(text, format!("an unknown type gives code {:?}, stdout {:?}, stderr {:?}", r.code, r.out, r.err));
            }
        }
    });
    run.bound("listings", "constants, operators and functions of each type, the default type, 6 unknown types");
    run.assume("the expression is passed after -- when it starts with a dash");
}
