//! The HTTP service: every bounded request and every bounded history of requests against the real server.
#[path = "../../harness/src/fw.rs"]
#[allow(dead_code)]
mod fw;
mod http;

use fw::{guard, Run, Tier, Worker};
use http::{Client, Response};
use prexel::binary::{binary_number_splitter, Binary};
use prexel::complex::Complex;
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::decimal::Decimal;
use prexel::evaluator::Evaluator;
use prexel::tokenizer::Tokenizer;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::fmt::{Debug, Display};
use std::process::{Child, Command, Stdio};
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const LIMIT: usize = 100;
const TYPES: [&str; 5] = ["decimal", "float", "integer", "complex", "binary"];

// ------------------------------------------------------------------ the server
struct Server {
    child: Mutex<Child>,
    port: u16,
}

impl Server {
    fn start() -> Server {
        let path = std::env::var("VP_SERVER").expect("VP_SERVER");
        let mut last = String::new();
        for k in 0..40u32 {
            // below the ports that the system gives to clients
            let port = (12000 + (std::process::id() * 7 + k * 1031) % 18000) as u16;
            if std::net::TcpListener::bind(("0.0.0.0", port)).is_err() {
                continue;
            }
            let child = Command::new(&path)
                .env("PORT", port.to_string())
                .env("RUST_LOG", "off")
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("cannot start the server");
            let s = Server { child: Mutex::new(child), port };
            let start = Instant::now();
            loop {
                if let Some(st) = s.ended() {
                    last = st;
                    break;
                }
                if http::connect(port).is_ok() {
                    return s;
                }
                if start.elapsed() > Duration::from_secs(60) {
                    s.stop();
                    panic!("the server does not accept connections");
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
        panic!("the server does not start: {}", last)
    }
    fn ended(&self) -> Option<String> {
        self.child.lock().unwrap().try_wait().ok().flatten().map(|s| s.to_string())
    }
    fn stop(&self) {
        let mut c = self.child.lock().unwrap();
        let _ = c.kill();
        let _ = c.wait();
    }
}

/// A client that changes its address before the limit of requests.
struct Conn<'s> {
    server: &'s Server,
    client: Option<Client>,
}

impl<'s> Conn<'s> {
    fn new(server: &'s Server) -> Conn<'s> {
        Conn { server, client: None }
    }
    fn ask(&mut self, q: &Request) -> Result<Response, String> {
        if self.client.as_ref().map_or(true, |c| c.sent >= LIMIT - 1) {
            self.client = Some(http::connect(self.server.port).map_err(|e| format!("cannot connect: {}", e))?);
        }
        let c = self.client.as_mut().unwrap();
        let r = c.send(q.method, &q.path, q.body.as_deref());
        r.map_err(|e| {
            self.client = None;
            match self.server.ended() {
                Some(s) => format!("the server ended ({})", s),
                None => format!("no answer: {}", e),
            }
        })
    }
}

// ------------------------------------------------------------------ requests
#[derive(Clone)]
struct Request {
    method: &'static str,
    path: String,
    body: Option<Vec<u8>>,
}

impl Request {
    fn show(&self) -> String {
        let b = self.body.as_ref().map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
        let b: String = b.chars().take(160).collect();
        format!("{} {} {}", self.method, self.path, b)
    }
}

fn get(path: &str) -> Request {
    Request { method: "GET", path: path.to_string(), body: None }
}

fn post(path: &str, body: impl Into<Vec<u8>>) -> Request {
    Request { method: "POST", path: path.to_string(), body: Some(body.into()) }
}

// ------------------------------------------------------------------ the model
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Value(String),
    Text(String),
    EvalError,
    BadRequest,
    List(Vec<Value>),
    Missing,
    Refused,
    Open,
}

fn run_eval<N>(mut cx: DefaultContext<'static, N>, e: &str, vars: &[(String, String)], binary: bool, parse: fn(&str) -> Option<N>) -> Option<String>
where
    N: FromStr + Display + Debug + Clone + 'static,
{
    for (n, v) in vars {
        cx.set_variable(n, parse(v)?).ok()?;
    }
    let e: &'static str = Box::leak(e.to_string().into_boxed_str());
    if binary {
        Evaluator::with_context_and_tokenizer(cx, Tokenizer::with_splitter(binary_number_splitter())).eval(e).ok().map(|v| v.to_string())
    } else {
        Evaluator::with_context(cx).eval(e).ok().map(|v| v.to_string())
    }
}

fn config() -> Config {
    Config::default().with_grouping(Grouping::Parenthesis).with_grouping(Grouping::Bracket).with_implicit_mul(true)
}

/// What the library computes. `None`: an error.
fn library(t: &str, e: &str, vars: &[(String, String)]) -> Option<String> {
    match t {
        "decimal" => run_eval::<Decimal>(DefaultContext::with_config_decimal(config()), e, vars, false, |s| s.parse().ok()),
        "float" => run_eval::<f64>(DefaultContext::with_config_checked(config()), e, vars, false, |s| s.parse().ok()),
        "integer" => run_eval::<i128>(DefaultContext::with_config_checked(config()), e, vars, false, |s| s.parse().ok()),
        "complex" => run_eval::<Complex<f64>>(DefaultContext::with_config_complex(config().with_complex_number(true)), e, vars, false, |s| s.parse().ok()),
        _ => run_eval::<Binary>(DefaultContext::with_config_binary(config()), e, vars, true, |s| s.parse::<i128>().ok().map(Binary)),
    }
}

/// What the body asks for. `None`: a body that must be refused.
fn body_model(v: &Value) -> Option<(String, String, Vec<(String, String)>)> {
    let o = v.as_object()?;
    let e = o.get("expression")?.as_str()?.to_string();
    let t = match o.get("type") {
        None | Some(Value::Null) => "decimal".to_string(),
        Some(Value::String(s)) if TYPES.contains(&s.as_str()) => s.clone(),
        _ => return None,
    };
    let mut vars = vec![];
    match o.get("variables") {
        None | Some(Value::Null) => {}
        Some(Value::Object(m)) => {
            for (n, x) in m {
                match x {
                    Value::String(s) => vars.push((n.clone(), s.clone())),
                    Value::Number(x) => vars.push((n.clone(), if x.is_f64() { format!("{}", x.as_f64().unwrap()) } else { x.to_string() })),
                    _ => return None,
                }
            }
        }
        _ => return None,
    }
    Some((e, t, vars))
}

/// What a request to `/eval` must give.
fn eval_model(body: &[u8], only_result: bool) -> Want {
    let parsed = std::str::from_utf8(body).ok().and_then(|s| serde_json::from_str::<Value>(s).ok());
    let Some(v) = parsed else { return Want::BadRequest };
    if v.is_array() {
        return Want::Open;
    }
    let Some((e, t, vars)) = body_model(&v) else { return Want::BadRequest };
    match guard(|| library(&t, &e, &vars)) {
        // the version of the library that the server uses panics
        Err(_) => Want::Open,
        Ok(None) => Want::EvalError,
        Ok(Some(v)) if only_result => Want::Text(v),
        Ok(Some(v)) => Want::Value(v),
    }
}

fn list<N: Display + 'static>(cx: DefaultContext<'static, N>, kind: &str) -> Vec<Value> {
    let f = |n: String, a: Option<&[&str]>, d: Option<&str>| json!({"name": n, "aliases": a.unwrap_or(&[]), "description": d});
    let mut v: Vec<Value> = match kind {
        "constants" => cx.constants().iter().map(|(n, x)| json!({"name": n.to_string(), "value": x.to_string()})).collect(),
        "functions" => cx.functions().iter().map(|(n, x)| f(n.to_string(), x.aliases(), x.description())).collect(),
        _ => {
            let b = cx.binary_functions().iter().map(|(n, x)| f(n.to_string(), x.aliases(), x.description()));
            let u = cx.unary_functions().iter().map(|(n, x)| f(n.to_string(), x.aliases(), x.description()));
            b.chain(u).collect()
        }
    };
    v.sort_by_key(|x| x.to_string());
    v
}

fn list_model(t: &str, kind: &str) -> Want {
    Want::List(match t {
        "decimal" => list::<Decimal>(DefaultContext::new_decimal(), kind),
        "float" => list::<f64>(DefaultContext::new_checked(), kind),
        "integer" => list::<i128>(DefaultContext::new_checked(), kind),
        "complex" => list::<Complex<f64>>(DefaultContext::new_complex(), kind),
        _ => list::<Binary>(DefaultContext::new_binary(), kind),
    })
}

/// `None`: as wanted.
fn judge(r: &Response, want: &Want) -> Option<String> {
    let j = || serde_json::from_str::<Value>(&r.body).unwrap_or(Value::Null);
    let error = |j: Value| j.get("result").map_or(false, |x| x.is_null()) && j.get("error").and_then(|x| x.as_str()).map_or(false, |s| !s.is_empty());
    let ok = match want {
        Want::Value(v) => r.status == 200 && j() == json!({"result": v, "error": null}),
        Want::Text(v) => r.status == 200 && r.body == *v,
        Want::EvalError => r.status == 200 && error(j()),
        Want::BadRequest => r.status == 400 && error(j()),
        Want::List(l) => {
            let mut got = match j() {
                Value::Array(a) => a,
                _ => vec![Value::Null],
            };
            got.sort_by_key(|x| x.to_string());
            if r.status == 200 && got != *l {
                let missing: Vec<_> = l.iter().filter(|x| !got.contains(x)).take(3).collect();
                let extra: Vec<_> = got.iter().filter(|x| !l.contains(x)).take(3).collect();
                return Some(format!("the list misses {:?} and has {:?}", missing, extra));
            }
            r.status == 200
        }
        Want::Missing => r.status == 404 || r.status == 405,
        Want::Refused => r.status == 429,
        Want::Open => true,
    };
    (!ok).then(|| {
        let b: String = r.body.chars().take(300).collect();
        format!("want {:?}, got status {} {}", want, r.status, b)
    })
}

fn check(w: &mut Worker, c: &mut Conn, q: &Request, want: &Want) {
    w.states += 1;
    if *want == Want::Open {
        return;
    }
    w.transitions += 1;
    let text = q.show();
    w.begin(&text);
    let r = c.ask(q);
    w.end();
    match r {
        Err(e) => w.violation(text, e),
        Ok(r) => {
            if let Some(d) = judge(&r, want) {
                w.violation(text, d);
            }
        }
    }
}

// ------------------------------------------------------------------ parts of the exploration
fn body(e: &str, t: Option<&str>, vars: Option<Value>) -> Vec<u8> {
    let mut m = Map::new();
    m.insert("expression".into(), e.into());
    if let Some(t) = t {
        m.insert("type".into(), t.into());
    }
    if let Some(v) = vars {
        m.insert("variables".into(), v);
    }
    Value::Object(m).to_string().into_bytes()
}

fn expressions(run: &Run, s: &Server) {
    let alpha = ["1", "2.5", "x", "(", ")", "+", "-", "*", "!", "pi", "max", ",", "y", "10", "i", "&"];
    let len = run.pick(3, 4);
    let mut all: Vec<String> = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..len {
        last = last.iter().flat_map(|p| alpha.iter().map(move |a| format!("{}{}", p, a))).collect();
        all.extend(last.iter().cloned());
    }
    let items: Vec<(Option<&str>, &[String])> = TYPES.iter().map(|t| Some(*t)).chain([None]).flat_map(|t| all.chunks(256).map(move |c| (t, c))).collect();
    run.par(&items, || Conn::new(s), |w, c, (t, es)| {
        for (k, e) in es.iter().enumerate() {
            let vars = json!({"x": 3, "y": "2"});
            let only = k % 2 == 1;
            let b = body(e, *t, Some(vars));
            let want = eval_model(&b, only);
            check(w, c, &post(if only { "/eval?only_result=true" } else { "/eval" }, b), &want);
        }
    });
    run.bound("expressions", format!("every sequence of up to {} of {} fragments for each type and without type", len, alpha.len()));
}

fn variables(run: &Run, s: &Server) {
    let values: Vec<Value> = [
        "10", "3.5", "-2", "0", "-0.0", "1e3", "1e-7", "0.1", "1e300", "9007199254740992", "9007199254740993", "-9007199254740993", "9223372036854775807", "18446744073709551615", "\"10\"", "\"3.5\"", "\"x\"",
        "\" 7\"", "\"\"", "\"2i\"", "\"1+2i\"", "\"b101\"", "\"9007199254740993\"", "\"170141183460469231731687303715884105727\"", "\"0.1234567890123456789\"", "true", "null", "[1]", "{}",
    ]
    .iter()
    .map(|s| serde_json::from_str(s).unwrap())
    .collect();
    let names = ["x", "X", "abc", "x1", "pi", "PI", "sum", "", "x y", "1x", "$r", "ñ", "i", "e", "mod", "a_b"];
    let types: Vec<Option<&str>> = TYPES.iter().map(|t| Some(*t)).chain([None]).collect();
    let items: Vec<(Option<&str>, &str)> = types.iter().flat_map(|t| names.iter().map(move |n| (*t, *n))).collect();
    run.par(&items, || Conn::new(s), |w, c, (t, n)| {
        for v in &values {
            for e in [n.to_string(), "1".to_string(), format!("{}+y", n), "x".to_string()] {
                for (with_y, y) in [(true, json!(2)), (true, json!("q")), (false, json!(0))] {
                    let mut m = Map::new();
                    m.insert(n.to_string(), v.clone());
                    if with_y {
                        m.insert("y".into(), y);
                    }
                    let b = body(&e, *t, Some(Value::Object(m)));
                    let want = eval_model(&b, false);
                    check(w, c, &post("/eval", b), &want);
                }
            }
        }
    });
    run.bound("variables", format!("{} names by {} JSON values by 4 expressions by 3 second variables for each type and without type", names.len(), values.len()));
}

fn bodies(run: &Run, s: &Server) {
    let keys = ["expression", "type", "variables", "other", "Expression"];
    let vals = ["\"1+1\"", "\"float\"", "null", "1", "{}", "{\"x\":1}", "true"];
    let members: Vec<(&str, String)> = keys.iter().flat_map(|k| vals.iter().map(move |v| (*k, format!("\"{}\":{}", k, v)))).collect();
    let n = run.pick(2, 3);
    let mut sets: Vec<Vec<&(&str, String)>> = vec![vec![]];
    let mut all = sets.clone();
    for _ in 0..n {
        sets = sets.iter().flat_map(|p| members.iter().map(move |m| [p.clone(), vec![m]].concat())).collect();
        all.extend(sets.iter().cloned());
    }
    let chunks: Vec<_> = all.chunks(200).collect();
    run.par(&chunks, || Conn::new(s), |w, c, sets| {
        for set in sets.iter() {
            let b = format!("{{{}}}", set.iter().map(|m| m.1.as_str()).collect::<Vec<_>>().join(","));
            let dup = (0..set.len()).any(|i| (0..i).any(|j| set[i].0 == set[j].0));
            // a key of the request given twice is refused
            let known = |k: &str| k == "expression" || k == "type" || k == "variables";
            let dup_known = (0..set.len()).any(|i| (0..i).any(|j| set[i].0 == set[j].0 && known(set[i].0)));
            let want = if dup_known || dup { if dup_known { Want::Open } else { eval_model(b.as_bytes(), false) } } else { eval_model(b.as_bytes(), false) };
            check(w, c, &post("/eval", b), &want);
        }
    });
    run.bound("bodies", format!("every object of up to {} of {} members", n, members.len()));

    // every body next to a valid one
    let valid = [
        r#"{"expression":"(x - y) ^ 2","type":"float","variables":{"x":10,"y":3.5}}"#,
        r#"{"expression":"2x","variables":{"x":"1.5"}}"#,
        r#"{"type":"binary","expression":"10 & 110"}"#,
        r#" { "expression" : "1/3" , "type" : null } "#,
    ];
    let mut near: Vec<Vec<u8>> = vec![vec![], b"null".to_vec(), b"1".to_vec(), b"\"1\"".to_vec(), b"\xff".to_vec(), b"{\"expression\":\"\xff\"}".to_vec(), b"\xef\xbb\xbf{\"expression\":\"1\"}".to_vec()];
    for v in valid {
        let v = v.as_bytes();
        near.push(v.to_vec());
        for i in 0..v.len() {
            near.push(v[..i].to_vec());
            let mut d = v.to_vec();
            d.remove(i);
            near.push(d);
            for c in b"{}[]\",:1x\\\n\0\x80" {
                let mut d = v.to_vec();
                d[i] = *c;
                near.push(d);
                let mut d = v.to_vec();
                d.insert(i, *c);
                near.push(d);
            }
        }
        for end in ["}", "]", ",", " ", "\n", "1", "x", " {}", "\"", "null", "{\"expression\":\"2\"}"] {
            near.push([v, end.as_bytes()].concat());
        }
    }
    let count = near.len();
    let chunks: Vec<_> = near.chunks(100).collect();
    run.par(&chunks, || Conn::new(s), |w, c, bs| {
        for b in bs.iter() {
            for only in [false, true] {
                let want = eval_model(b, only);
                check(w, c, &post(if only { "/eval?only_result=true" } else { "/eval?only_result=false" }, b.clone()), &want);
            }
        }
    });
    run.bound("bodies next to valid ones", format!("{} by one deletion, insertion, replacement, truncation or suffix", count));
}

fn pages(run: &Run, s: &Server) {
    let mut all: Vec<(Request, Want)> = vec![];
    for kind in ["operators", "functions", "constants"] {
        for slash in ["", "/"] {
            all.push((get(&format!("/{}{}", kind, slash)), list_model("decimal", kind)));
            for t in TYPES {
                all.push((get(&format!("/{}{}?type={}", kind, slash, t)), list_model(t, kind)));
            }
        }
        all.push((post(&format!("/{}", kind), "{}"), Want::Missing));
        all.push((get(&format!("/{}x", kind)), Want::Missing));
    }
    for p in ["/", "/x", "/evalx", "/eval/x", "/operators/x", "/Eval"] {
        all.push((get(p), Want::Missing));
        all.push((post(p, body("1", None, None)), Want::Missing));
    }
    all.push((get("/eval"), Want::Missing));
    all.push((post("/eval/", body("1+1", None, None)), Want::Value("2".into())));
    all.push((post("/eval/?only_result=true", body("1+1", None, None)), Want::Text("2".into())));
    run.par(&all, || Conn::new(s), |w, c, (q, want)| check(w, c, q, want));
    run.bound("pages", format!("{} requests: each list by type, wrong paths and methods", all.len()));
}

/// Requests whose answers would show what the server kept from others.
fn alphabet() -> Vec<(Request, Want)> {
    let e = |e: &str, t: Option<&str>, v: Option<Value>, only: bool| {
        let b = body(e, t, v);
        let want = eval_model(&b, only);
        (post(if only { "/eval?only_result=true" } else { "/eval" }, b), want)
    };
    vec![
        e("x", None, Some(json!({"x": 5})), false),
        e("x", None, None, false),
        e("x", None, Some(json!({"x": "7.5"})), true),
        e("2x", Some("complex"), Some(json!({"x": "2i"})), false),
        e("10 | 1", Some("binary"), None, false),
        e("x + y", Some("integer"), Some(json!({"x": 1, "y": 2})), true),
        e("sin(30)", Some("float"), None, false),
        e("1 +", None, None, true),
        (post("/eval", "{"), Want::BadRequest),
        (get("/constants?type=integer"), list_model("integer", "constants")),
        (get("/nothing"), Want::Missing),
    ]
}

fn histories(run: &Run, s: &Server) {
    let abc = alphabet();
    let n = abc.len();
    let depth = run.pick(3, 4);
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth {
        seqs = seqs.into_iter().flat_map(|p| (0..n).map(move |i| [p.clone(), vec![i]].concat())).collect();
    }
    // one after the other, by every assignment of the requests to two clients (each in its own connection)
    let chunks: Vec<&[Vec<usize>]> = seqs.chunks(40).collect();
    run.par(&chunks, || (), |w, _, seqs| {
        for seq in seqs.iter() {
            for who in 0..1usize << (depth - 1) {
                let mut clients: HashMap<usize, Client> = HashMap::new();
                let mut sent = [0usize; 2];
                let mut text = String::new();
                for (k, i) in seq.iter().enumerate() {
                    let (q, want) = &abc[*i];
                    let c = (who >> k) & 1;
                    text.push_str(&format!("{}client {}: {}", if k == 0 { "" } else { "; then " }, c + 1, q.show()));
                    w.states += 1;
                    w.transitions += 1;
                    w.begin(&text);
                    sent[c] += 1;
                    let r = match clients.entry(c) {
                        std::collections::hash_map::Entry::Occupied(e) => Ok(e.into_mut()),
                        std::collections::hash_map::Entry::Vacant(e) => http::connect(s.port).map(|x| e.insert(x)),
                    }
                    .and_then(|c| c.send(q.method, &q.path, q.body.as_deref()));
                    w.end();
                    let problem = match r {
                        Err(e) => Some(format!("no answer: {} {:?}", e, s.ended())),
                        Ok(r) => judge(&r, want).or_else(|| limits(&r, sent[c])),
                    };
                    if let Some(d) = problem {
                        w.violation(text.clone(), d);
                        break;
                    }
                }
            }
        }
    });
    run.bound("histories", format!("every sequence of {} of {} requests by every assignment to two clients", depth, n));
}

/// The headers of the k-th request of a client.
fn limits(r: &Response, k: usize) -> Option<String> {
    let h = |n: &str| r.header(n).and_then(|v| v.parse::<usize>().ok());
    let reset = h("x-ratelimit-reset");
    let ok = h("x-ratelimit-limit") == Some(LIMIT) && h("x-ratelimit-remaining") == Some(LIMIT.saturating_sub(k)) && reset.map_or(false, |s| s <= 60) && (k > 1 || reset == Some(60));
    (!ok).then(|| {
        format!(
            "request {} of the client: limit {:?} remaining {:?} reset {:?}",
            k,
            r.header("x-ratelimit-limit"),
            r.header("x-ratelimit-remaining"),
            r.header("x-ratelimit-reset")
        )
    })
}

fn rate(run: &Run, s: &Server) {
    let abc = alphabet();
    let n = abc.len();
    // a client that repeats (i, j) alternately, and another one that asks in between
    let items: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).collect();
    run.par(&items, || (), |w, _, (i, j)| {
        let mut ask = |w: &mut Worker, c: &mut Client, i: usize, refused: bool, other: bool| -> bool {
            let (q, want) = &abc[i];
            let want = if refused { &Want::Refused } else { want };
            let text = format!("{} request {}: {}", if other { "another client" } else { "client" }, c.sent + 1, q.show());
            w.states += 1;
            w.transitions += 1;
            w.begin(&text);
            let r = c.send(q.method, &q.path, q.body.as_deref());
            w.end();
            let problem = match r {
                Err(e) => Some(format!("no answer: {} {:?}", e, s.ended())),
                Ok(r) => judge(&r, want).or_else(|| limits(&r, c.sent)),
            };
            match problem {
                Some(d) => {
                    w.violation(text, d);
                    false
                }
                None => true,
            }
        };
        let (Ok(mut a), Ok(mut b)) = (http::connect(s.port), http::connect(s.port)) else {
            w.violation("connect", "the server accepts no connection");
            return;
        };
        for k in 0..LIMIT + 3 {
            if !ask(w, &mut a, if k % 2 == 0 { *i } else { *j }, k >= LIMIT, false) {
                return;
            }
            if k % 40 == 39 || k >= LIMIT {
                if !ask(w, &mut b, *j, false, true) {
                    return;
                }
            }
        }
    });
    run.bound("limit", format!("{} alternations of two requests, 103 requests of a client and some of another one in between", items.len()));
    shared(run, s);
    if run.thorough() {
        // the requests are refused until the time ends (asking meanwhile does not change it), and allowed after it
        let mut a = http::connect(s.port).expect("connect");
        let (q, want) = &abc[0];
        let start = Instant::now();
        let mut ask = |what: &str, want: &Want| {
            let r = match a.send(q.method, &q.path, q.body.as_deref()) {
                Ok(r) => judge(&r, want),
                Err(e) => Some(e.to_string()),
            };
            if let Some(d) = r {
                run.violation(what.to_string(), d);
            }
        };
        for _ in 0..LIMIT {
            ask("one of the first requests of a client", want);
        }
        while start.elapsed() < Duration::from_secs(57) {
            ask(&format!("a request {} s after the limit was reached", start.elapsed().as_secs()), &Want::Refused);
            std::thread::sleep(Duration::from_secs(2));
        }
        // either answer is right around the end (the connection is kept by asking)
        while start.elapsed() < Duration::from_secs(63) {
            ask("a request around the end of the time", &Want::Open);
            std::thread::sleep(Duration::from_secs(1));
        }
        ask("a request after the time of the limit", want);
        run.bound("time", "a request after the time of the limit");
    }
}

/// Many connections of one address, and requests that pretend to be of another client.
fn shared(run: &Run, s: &Server) {
    let abc = alphabet();
    let count = run.pick(48u16, 160);
    let rounds = run.pick(4, 12);
    let ask = |w: &mut Worker, c: &mut Client, what: String, i: usize, headers: &str, refused: bool| {
        let (q, want) = &abc[i % abc.len()];
        let want = if refused { &Want::Refused } else { want };
        let text = format!("{}, request {}: {} {:?}", what, c.sent + 1, q.show(), headers);
        w.states += 1;
        w.transitions += 1;
        w.begin(&text);
        let r = c.send_with(q.method, &q.path, q.body.as_deref(), headers);
        w.end();
        let problem = match r {
            Err(e) => Some(format!("no answer: {} {:?}", e, s.ended())),
            Ok(r) => judge(&r, want).or_else(|| limits(&r, c.sent)),
        };
        if let Some(d) = problem {
            w.violation(text, d);
        }
    };
    let groups: Vec<u16> = (0..run.pick(8, 16)).collect();
    run.par(&groups, || (), |w, _, g| {
        let ip = http::address();
        // consecutive ports, and ports with the same digits
        let first = 20000 + g * 200;
        let mut cs: Vec<(u16, Client)> = (first..first + count - 2)
            .chain([first / 10, first % 1000 + 1000])
            .filter_map(|p| http::connect_from(s.port, ip, p).ok().map(|c| (p, c)))
            .collect();
        if cs.len() < 40 {
            w.violation("connect", "the server accepts no connections");
            return;
        }
        for k in 0..rounds {
            for (p, c) in cs.iter_mut() {
                ask(w, c, format!("one of the connections of an address, port {}", p), k + *g as usize, "", false);
            }
        }
        // one of them reaches the limit
        let n = cs.len() / 2;
        for _ in 0..LIMIT {
            let (p, c) = &mut cs[n];
            let refused = c.sent >= LIMIT;
            ask(w, c, format!("one of the connections of an address, port {}", p), 0, "", refused);
        }
        for (p, c) in cs.iter_mut().filter(|c| c.1.sent < LIMIT) {
            ask(w, c, format!("a connection of the address of one that reached the limit, port {}", p), 0, "", false);
        }
    });
    run.bound("connections of an address", format!("{} groups of {}", groups.len(), count));
    // headers
    let victim = "127.1.0.1";
    let mut headers: Vec<String> = vec![String::new()];
    for h in ["X-Forwarded-For", "X-Real-IP", "X-Client-IP", "True-Client-IP", "CF-Connecting-IP", "Via", "From", "X-Ratelimit-Id"] {
        headers.push(format!("{}: {}\r\n", h, victim));
        headers.push(format!("{}: {}:5000\r\n", h, victim));
    }
    for h in [
        "Forwarded: for=127.1.0.1;proto=http;by=127.1.0.2",
        "Cookie: X-Ratelimit-Id=abc",
        "Cookie: X-Ratelimit-Id=abc; Path=/; HttpOnly",
        "X-Ratelimit-Remaining: 3",
        "X-Ratelimit-Limit: 3",
        "X-Ratelimit-Reset: 1",
        "User-Agent: a",
        "Authorization: Basic YTph",
        "Origin: http://a",
        "Accept: text/plain",
        "Accept-Encoding: identity",
    ] {
        headers.push(format!("{}\r\n", h));
    }
    let pairs: Vec<(usize, usize)> = (0..headers.len()).flat_map(|i| (0..headers.len()).map(move |j| (i, j))).collect();
    run.par(&pairs, || (), |w, _, (i, j)| {
        let (Ok(mut a), Ok(mut b)) = (http::connect(s.port), http::connect(s.port)) else {
            w.violation("connect", "the server accepts no connection");
            return;
        };
        let what = |c: &str| format!("{} of two clients that send the same headers", c);
        for h in [i, j, i] {
            ask(w, &mut a, what("the first"), 5, &headers[*h], false);
            ask(w, &mut b, what("the second"), 1, &headers[*h], false);
        }
    });
    // and whatever they are they do not give more requests
    run.par(&headers, || (), |w, _, h| {
        let Ok(mut a) = http::connect(s.port) else {
            w.violation("connect", "the server accepts no connection");
            return;
        };
        for k in 0..LIMIT + 2 {
            ask(w, &mut a, "a client that sends headers at times".into(), 5, if k % 3 == 2 || k >= LIMIT { h } else { "" }, k >= LIMIT);
        }
    });
    run.bound("headers", headers.len() as u64);
}

fn explore(run: &Run, s: &Server, id: &str) {
    if id == "C24" {
        rate(run, s);
    } else {
        pages(run, s);
        variables(run, s);
        bodies(run, s);
        histories(run, s);
        expressions(run, s);
    }
    if let Some(st) = s.ended() {
        run.violation("server", format!("the server ended: {}", st));
    }
    run.assume("each client connects from its own address; the server runs on this host");
    run.assume("the values are those of prexel 0.1.9 from the registry, which the server depends on; requests for which that version panics are left out");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let tier = match args.get(2).map(|s| s.as_str()) {
        Some("quick") => Tier::Quick,
        Some("thorough") => Tier::Thorough,
        _ => std::process::exit(2),
    };
    fw::install_panic_hook();
    let run = Arc::new(Run::new(&args[1], tier, "server"));
    let server = match guard(Server::start) {
        Ok(s) => s,
        Err(msg) => {
            run.violation("start", msg);
            std::process::exit(run.finish(&[]));
        }
    };
    if let Err(msg) = guard(|| explore(&run, &server, &args[1])) {
        run.violation("cannot continue", msg);
    }
    server.stop();
    std::process::exit(run.finish(&[]));
}
