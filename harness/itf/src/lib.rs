//! Reader for the ITF traces `quint run --out-itf` writes, and the reporting shared by the replay drivers.
use num_bigint::BigInt;
use num_traits::ToPrimitive;
use serde_json::Value;
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum V {
    Int(BigInt),
    Bool(bool),
    Str(String),
    List(Vec<V>),
    Set(Vec<V>),
    Map(Vec<(V, V)>),
    Rec(BTreeMap<String, V>),
    Var(String, Box<V>),
}

impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            V::Int(i) => write!(f, "{}", i),
            V::Bool(b) => write!(f, "{}", b),
            V::Str(s) => write!(f, "{:?}", s),
            V::List(l) => f.debug_list().entries(l).finish(),
            V::Set(l) => f.debug_set().entries(l).finish(),
            V::Map(m) => f.debug_map().entries(m.iter().map(|(a, b)| (a, b))).finish(),
            V::Rec(m) => f.debug_map().entries(m.iter()).finish(),
            V::Var(t, v) => write!(f, "{}({:?})", t, v),
        }
    }
}

impl V {
    pub fn from_json(j: &Value) -> V {
        match j {
            Value::Bool(b) => V::Bool(*b),
            Value::Number(n) => V::Int(n.to_string().parse().unwrap()),
            Value::String(s) => V::Str(s.clone()),
            Value::Array(a) => V::List(a.iter().map(V::from_json).collect()),
            Value::Object(o) => {
                if let Some(Value::String(s)) = o.get("#bigint") {
                    return V::Int(s.parse().unwrap());
                }
                if let Some(Value::Array(a)) = o.get("#tup") {
                    return V::List(a.iter().map(V::from_json).collect());
                }
                if let Some(Value::Array(a)) = o.get("#set") {
                    let mut l: Vec<V> = a.iter().map(V::from_json).collect();
                    l.sort();
                    return V::Set(l);
                }
                if let Some(Value::Array(a)) = o.get("#map") {
                    let mut l: Vec<(V, V)> =
                        a.iter().map(|p| (V::from_json(&p[0]), V::from_json(&p[1]))).collect();
                    l.sort();
                    return V::Map(l);
                }
                if o.len() == 2 && o.contains_key("tag") && o.contains_key("value") {
                    return V::Var(o["tag"].as_str().unwrap().to_string(), Box::new(V::from_json(&o["value"])));
                }
                V::Rec(o.iter().map(|(k, v)| (k.clone(), V::from_json(v))).collect())
            }
            Value::Null => V::Rec(BTreeMap::new()),
        }
    }
    pub fn get(&self, k: &str) -> &V {
        match self {
            V::Rec(m) => m.get(k).unwrap_or_else(|| panic!("no field {} in {:?}", k, self)),
            _ => panic!("not a record ({}): {:?}", k, self),
        }
    }
    pub fn has(&self, k: &str) -> bool {
        matches!(self, V::Rec(m) if m.contains_key(k))
    }
    pub fn at(&self, i: usize) -> &V {
        &self.list()[i]
    }
    pub fn list(&self) -> &[V] {
        match self {
            V::List(l) | V::Set(l) => l,
            _ => panic!("not a list: {:?}", self),
        }
    }
    /// The value a function gives for `k`.
    pub fn of(&self, k: &V) -> &V {
        self.map().iter().find(|(i, _)| i == k).map(|(_, v)| v).unwrap_or_else(|| tool_error(&format!("no {:?} in {:?}", k, self)))
    }
    pub fn map(&self) -> &[(V, V)] {
        match self {
            V::Map(l) => l,
            _ => panic!("not a map: {:?}", self),
        }
    }
    pub fn int(&self) -> &BigInt {
        match self {
            V::Int(i) => i,
            _ => panic!("not an int: {:?}", self),
        }
    }
    pub fn u(&self) -> u64 {
        self.int().to_u64().unwrap_or_else(|| panic!("not u64: {:?}", self))
    }
    pub fn is_neg(&self) -> bool {
        *self.int() < BigInt::from(0)
    }
    pub fn us(&self) -> usize {
        self.u() as usize
    }
    pub fn u32(&self) -> u32 {
        self.int().to_u32().unwrap_or_else(|| panic!("not u32: {:?}", self))
    }
    pub fn i32(&self) -> i32 {
        self.int().to_i32().unwrap_or_else(|| panic!("not i32: {:?}", self))
    }
    pub fn i64(&self) -> i64 {
        self.int().to_i64().unwrap_or_else(|| panic!("not i64: {:?}", self))
    }
    pub fn u128(&self) -> u128 {
        self.int().to_u128().unwrap_or_else(|| panic!("not u128: {:?}", self))
    }
    pub fn i128(&self) -> i128 {
        self.int().to_i128().unwrap_or_else(|| panic!("not i128: {:?}", self))
    }
    pub fn b(&self) -> bool {
        match self {
            V::Bool(b) => *b,
            _ => panic!("not a bool: {:?}", self),
        }
    }
    pub fn s(&self) -> &str {
        match self {
            V::Str(s) => s,
            V::Var(t, _) => t,
            _ => panic!("not a string: {:?}", self),
        }
    }
    pub fn tag(&self) -> &str {
        match self {
            V::Var(t, _) => t,
            V::Str(s) => s,
            _ => panic!("not a variant: {:?}", self),
        }
    }
    pub fn val(&self) -> &V {
        match self {
            V::Var(_, v) => v,
            _ => panic!("not a variant: {:?}", self),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.list().iter().map(|x| x.u() as u8).collect()
    }
    pub fn some(&self) -> Option<&V> {
        match self {
            V::Var(t, v) if t == "Some" => Some(v),
            V::Var(t, _) if t == "None" => None,
            _ => panic!("not an option: {:?}", self),
        }
    }
}

/// One state of a trace, by variable name.
pub struct Trace {
    pub path: String,
    pub states: Vec<V>,
}

fn parse(text: &str, path: &str) -> Trace {
    let j: Value = serde_json::from_str(text).unwrap_or_else(|e| tool_error(&format!("{}: {}", path, e)));
    let states = j["states"]
        .as_array()
        .unwrap_or_else(|| tool_error(&format!("{}: no states", path)))
        .iter()
        .map(V::from_json)
        .collect();
    Trace { path: path.to_string(), states }
}

fn load(path: &str) -> Trace {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| tool_error(&format!("{}: {}", path, e)));
    parse(&text, path)
}

pub fn tool_error(msg: &str) -> ! {
    eprintln!("TOOL-ERROR {}", msg);
    std::process::exit(2)
}

/// What a replay reports on stdout, for tools/check.py.
#[derive(Default)]
pub struct Report {
    pub traces: u64,
    pub steps: u64,
    pub comparisons: u64,
    pub kinds: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violation: Option<(String, usize, String)>,
}

impl Report {
    pub fn kind(&mut self, k: &str) {
        *self.kinds.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 4 {
            self.samples.push(s.chars().take(600).collect());
        }
    }
    pub fn violate(&mut self, path: &str, step: usize, msg: String) {
        if self.violation.is_none() {
            self.violation = Some((path.to_string(), step, msg.chars().take(4000).collect()));
        }
    }
    pub fn finish(self) -> ! {
        let v = match &self.violation {
            None => Value::Null,
            Some((p, s, m)) => serde_json::json!({"trace": p, "step": s, "message": m}),
        };
        println!(
            "{}",
            serde_json::json!({
                "traces": self.traces, "steps": self.steps, "comparisons": self.comparisons,
                "kinds": self.kinds, "samples": self.samples, "violation": v,
            })
        );
        std::process::exit(if self.violation.is_some() { 1 } else { 0 })
    }
}

/// Runs `f`, turning a panic of the code under test into data.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    })
}

pub fn quiet_panics() {
    if std::env::var("LOUD").is_ok() {
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
}

pub type Replay = fn(&mut Report, &Trace) -> Result<(), (usize, String)>;

/// The behaviours a driver is given: files, or with "-" the lines of the standard input, named by their numbers.
pub fn traces(names: &[String]) -> Box<dyn Iterator<Item = Trace> + '_> {
    if names[0] == "-" {
        Box::new(std::io::stdin().lines().enumerate().map(|(n, l)| {
            let l = l.unwrap_or_else(|e| tool_error(&format!("line {}: {}", n, e)));
            parse(&l, &n.to_string())
        }))
    } else {
        Box::new(names.iter().map(|p| load(p)))
    }
}

/// The main function of a driver: `<bin> <kind> <trace>...`, each trace replayed by what `find` gives for the kind.
pub fn drive(find: impl Fn(&str) -> Option<Replay>) -> ! {
    quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        tool_error("usage: <kind> <trace>...");
    }
    let f = find(&args[1]).unwrap_or_else(|| tool_error(&format!("unknown kind {}", args[1])));
    let mut rep = Report::default();
    for t in traces(&args[2..]) {
        let path = &t.path;
        rep.traces += 1;
        match guarded(|| f(&mut rep, &t)) {
            Ok(Ok(())) => {}
            Ok(Err((i, m))) => {
                rep.violate(path, i, m);
                break;
            }
            Err(p) => {
                rep.violate(path, 0, format!("panic: {}", p));
                break;
            }
        }
    }
    rep.finish()
}

/// Agreement of a value of the specification with one of the code.
pub fn agree<T: PartialEq + std::fmt::Debug>(what: impl AsRef<str>, spec: T, code: T) -> Result<(), String> {
    if spec == code {
        Ok(())
    } else {
        Err(format!("{}: the specification says {:?}, the code gives {:?}", what.as_ref(), spec, code))
    }
}
