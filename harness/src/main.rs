//! inkdrv: drives the real runtime and compiler from ndjson jobs.
//!
//! stdin: one job per line. stdout: one result per line.
//! A job either runs a list of host operations (`"ops"`), explores the tree of
//! all choice paths (`"tree"`), lists the content tree (`"audit"`) or only
//! compiles (`"compile"`).
use bladeink::{
    story::{
        Story,
        errors::{ErrorHandler, ErrorType},
        external_functions::ExternalFunction,
        variable_observer::VariableObserver,
        verif,
    },
    value_type::ValueType,
};
use bladeink_compiler::{Compiler, CompilerError, CompilerOptions};
use serde_json::{Map, Value as J, json};
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::RefCell,
    collections::HashMap,
    io::{BufRead, Write},
    panic::{AssertUnwindSafe, catch_unwind},
    rc::Rc,
    sync::atomic::{AtomicI64, Ordering},
};

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        unsafe { System.dealloc(p, l) }
    }
}

#[global_allocator]
static A: Counting = Counting;

fn live() -> i64 {
    LIVE.load(Ordering::Relaxed)
}

// ---------------------------------------------------------------- values

thread_local! {
    static FULL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn show(v: &ValueType) -> String {
    match v {
        ValueType::List(l) if FULL.with(|f| f.get()) => {
            let mut items: Vec<(i32, String, String)> = l
                .items
                .iter()
                .map(|(i, v)| (*v, i.get_origin_name().cloned().unwrap_or_default(), i.get_item_name().to_owned()))
                .collect();
            items.sort();
            let items: Vec<String> = items.iter().map(|(v, o, n)| format!("{o}.{n}={v}")).collect();
            format!("l:{}", items.join(","))
        }
        ValueType::Bool(b) => format!("b:{b}"),
        ValueType::Int(i) => format!("i:{i}"),
        ValueType::Float(f) => format!("f:{f}"),
        ValueType::List(l) => format!("l:{l}"),
        ValueType::String(s) => format!("s:{}", s.string),
        ValueType::DivertTarget(p) => format!("d:{p}"),
        ValueType::VariablePointer(_) => "p:".to_owned(),
    }
}

/// "i:3" | "f:1.5" | "b:true" | "s:text" | "g:var" (current value of a global)
fn value(st: &Story, s: &str) -> Option<ValueType> {
    let (t, r) = s.split_at(2);
    Some(match t {
        "i:" => ValueType::from(r.parse::<i32>().ok()?),
        "f:" => ValueType::from(r.parse::<f32>().ok()?),
        "b:" => ValueType::from(r == "true"),
        "s:" => ValueType::from(r),
        "g:" => st.get_variable(r)?,
        _ => return None,
    })
}

// ---------------------------------------------------------------- session

#[derive(Default)]
struct Log {
    notes: Vec<J>,
    calls: Vec<J>,
    handler: Vec<J>,
    lines: i64,
}

type SharedLog = Rc<RefCell<Log>>;

struct Obs {
    id: String,
    log: SharedLog,
}
impl VariableObserver for Obs {
    fn changed(&mut self, n: &str, v: &ValueType) {
        self.log
            .borrow_mut()
            .notes
            .push(json!({"o": self.id, "n": n, "v": show(v), "steps": verif::steps()}));
    }
}

struct Handler {
    log: SharedLog,
}
impl ErrorHandler for Handler {
    fn error(&mut self, m: &str, t: ErrorType) {
        let k = if t == ErrorType::Warning { "warning" } else { "error" };
        self.log.borrow_mut().handler.push(json!([k, m]));
    }
}

struct Ext {
    log: SharedLog,
    ret: J,
    count: i32,
}
impl ExternalFunction for Ext {
    fn call(&mut self, name: &str, args: Vec<ValueType>) -> Option<ValueType> {
        self.count += 1;
        let shown: Vec<String> = args.iter().map(show).collect();
        let mut l = self.log.borrow_mut();
        let lines = l.lines;
        l.calls.push(json!({"n": name, "a": shown, "lines": lines}));
        let k = self.ret.get("k").and_then(|k| k.as_str()).unwrap_or("none");
        match k {
            "none" => None,
            "int" => Some(ValueType::from(self.ret["v"].as_i64().unwrap_or(0) as i32)),
            "bool" => Some(ValueType::from(self.ret["v"].as_bool().unwrap_or(false))),
            "str" => Some(ValueType::from(self.ret["v"].as_str().unwrap_or(""))),
            "float" => Some(ValueType::from(self.ret["v"].as_f64().unwrap_or(0.0) as f32)),
            "arg" => args.get(self.ret["v"].as_u64().unwrap_or(0) as usize).cloned(),
            "sum" => {
                let mut s = self.ret["v"].as_i64().unwrap_or(0) as i32;
                for a in &args {
                    s = s.wrapping_add(a.coerce_to_int().unwrap_or(0));
                }
                Some(ValueType::from(s))
            }
            "count" => Some(ValueType::from(self.count)),
            _ => None,
        }
    }
}

struct Watch {
    vars: Vec<String>,
    visits: Vec<String>,
    path: bool,
}

struct Session {
    doc: String,
    story: Story,
    log: SharedLog,
    observers: HashMap<String, Rc<RefCell<dyn VariableObserver>>>,
    slots: HashMap<String, String>,
    watch: Watch,
    seed: i32,
}

fn strs(j: Option<&J>) -> Vec<String> {
    j.and_then(|a| a.as_array())
        .map(|a| a.iter().filter_map(|s| s.as_str().map(|s| s.to_owned())).collect())
        .unwrap_or_default()
}

/// Turn numbers into strings with full precision kept, so that saved states
/// can be compared whatever key order they were written in.
fn canon(j: &J) -> J {
    match j {
        J::Object(m) => {
            let mut ks: Vec<&String> = m.keys().collect();
            ks.sort();
            let mut o = Map::new();
            for k in ks {
                o.insert(k.clone(), canon(&m[k]));
            }
            J::Object(o)
        }
        J::Array(a) => J::Array(a.iter().map(canon).collect()),
        x => x.clone(),
    }
}

impl Session {
    fn observe(&mut self) -> J {
        let mut o = Map::new();
        let can = self.story.can_continue();
        o.insert("can".into(), json!(can));
        match self.story.get_current_text() {
            Ok(t) => o.insert("text".into(), json!(t)),
            Err(_) => o.insert("text".into(), J::Null),
        };
        match self.story.get_current_tags() {
            Ok(t) => o.insert("tags".into(), json!(t)),
            Err(_) => o.insert("tags".into(), J::Null),
        };
        let ch: Vec<J> = self
            .story
            .get_current_choices()
            .iter()
            .map(|c| json!({"t": c.text, "g": c.tags, "i": *c.index.borrow()}))
            .collect();
        o.insert("choices".into(), J::Array(ch));
        let vars: Map<String, J> = self
            .watch
            .vars
            .iter()
            .map(|n| {
                (
                    n.clone(),
                    json!(self.story.get_variable(n).map(|v| show(&v)).unwrap_or_default()),
                )
            })
            .collect();
        o.insert("vars".into(), J::Object(vars));
        let visits: Map<String, J> = self
            .watch
            .visits
            .iter()
            .map(|n| {
                (
                    n.clone(),
                    json!(self.story.get_visit_count_at_path_string(n).unwrap_or(-1)),
                )
            })
            .collect();
        o.insert("visits".into(), J::Object(visits));
        o.insert("errs".into(), json!(self.story.get_current_errors()));
        o.insert("warns".into(), json!(self.story.get_current_warnings()));
        if self.watch.path {
            o.insert("path".into(), json!(self.story.get_current_path()));
        }
        let mut l = self.log.borrow_mut();
        o.insert("notes".into(), J::Array(std::mem::take(&mut l.notes)));
        o.insert("calls".into(), J::Array(std::mem::take(&mut l.calls)));
        o.insert("handler".into(), J::Array(std::mem::take(&mut l.handler)));
        o.insert("steps".into(), json!(verif::steps()));
        J::Object(o)
    }

    fn args(&self, op: &J) -> Option<Vec<ValueType>> {
        op.get("args").and_then(|a| a.as_array()).map(|a| {
            a.iter()
                .filter_map(|s| s.as_str().and_then(|s| value(&self.story, s)))
                .collect()
        })
    }

    fn apply(&mut self, op: &J) -> (bool, J) {
        let s = |k: &str| op.get(k).and_then(|v| v.as_str()).unwrap_or("").to_owned();
        let n = |k: &str| op.get(k).and_then(|v| v.as_i64()).unwrap_or(0);
        let unit = |r: Result<(), bladeink::story_error::StoryError>| match r {
            Ok(()) => (true, J::Null),
            Err(e) => (false, json!(e.to_string())),
        };
        match s("op").as_str() {
            "cont" => match self.story.cont() {
                Ok(t) => {
                    self.log.borrow_mut().lines += 1;
                    (true, json!(t))
                }
                Err(e) => (false, json!(e.to_string())),
            },
            "maximally" => match self.story.continue_maximally() {
                Ok(t) => (true, json!(t)),
                Err(e) => (false, json!(e.to_string())),
            },
            "drain" => {
                let mut lines = Vec::new();
                let mut left = if op.get("max").is_some() { n("max") } else { 1000 };
                while self.story.can_continue() && left > 0 {
                    left -= 1;
                    match self.story.cont() {
                        Ok(t) => {
                            self.log.borrow_mut().lines += 1;
                            let g = self.story.get_current_tags().unwrap_or_default();
                            lines.push(json!({"t": t, "g": g}))
                        }
                        Err(e) => return (false, json!(e.to_string())),
                    }
                }
                (true, J::Array(lines))
            }
            // What a player shows until a choice is needed: the lines with their tags and what
            // the handler was told meanwhile.
            "show" => {
                let mut lines = Vec::new();
                let mut err = J::Null;
                self.log.borrow_mut().handler.clear();
                while self.story.can_continue() {
                    let t = match self.story.cont() {
                        Ok(t) => t,
                        Err(e) => {
                            err = json!(e.to_string());
                            break;
                        }
                    };
                    let g = self.story.get_current_tags().unwrap_or_default();
                    let m = std::mem::take(&mut self.log.borrow_mut().handler);
                    lines.push(json!({"t": t, "g": g, "m": m}));
                }
                (true, json!({"lines": lines, "err": err}))
            }
            "async" => {
                // The virtual clock advances 1 ms per step.
                let r = self.story.continue_async(n("k") as f32 - 0.5);
                unit(r)
            }
            // Time-limited continues of the given sizes (cycled) until the
            // line completes.
            "slices" => {
                let ks: Vec<i64> = op["ks"]
                    .as_array()
                    .map(|a| a.iter().filter_map(|x| x.as_i64()).collect())
                    .unwrap_or_default();
                let mut i = 0;
                let mids = op["mid"].as_array().cloned().unwrap_or_default();
                let mut mid = Vec::new();
                loop {
                    let k = if ks.is_empty() { 1_000_000 } else { ks[i % ks.len()] };
                    i += 1;
                    if let Err(e) = self.story.continue_async(k as f32 - 0.5) {
                        return (false, json!(e.to_string()));
                    }
                    if let Ok(t) = self.story.get_current_text() {
                        self.log.borrow_mut().lines += 1;
                        return (true, json!({"t": t, "slices": i, "mid": mid}));
                    }
                    // calls made while the continue is unfinished
                    for m in &mids {
                        let (ok, v) = self.apply(m);
                        mid.push(json!({"r": if ok { "ok" } else { "err" }, "v": v, "op": m, "slice": i}));
                    }
                    if i > 200_000 {
                        return (false, json!("never completes"));
                    }
                }
            }
            "choose" => {
                let r = self.story.choose_choice_index(n("i") as usize);
                unit(r)
            }
            "save" => match self.story.save_state() {
                Ok(t) => {
                    self.slots.insert(s("slot"), t);
                    (true, J::Null)
                }
                Err(e) => (false, json!(e.to_string())),
            },
            "savejson" => match self.story.save_state() {
                Ok(t) => match serde_json::from_str::<J>(&t) {
                    Ok(j) => (true, json!(canon(&j).to_string())),
                    Err(e) => (false, json!(e.to_string())),
                },
                Err(e) => (false, json!(e.to_string())),
            },
            "saveraw" => match self.story.save_state() {
                Ok(t) => (true, json!(t)),
                Err(e) => (false, json!(e.to_string())),
            },
            "load" => match self.slots.get(&s("slot")).cloned() {
                Some(t) => {
                    let r = self.story.load_state(&t);
                    unit(r)
                }
                None => (false, json!("no slot")),
            },
            "load_text" => {
                let r = self.story.load_state(&s("text"));
                unit(r)
            }
            "fresh" => match Story::new(&self.doc) {
                Ok(st) => {
                    self.story = st;
                    self.story.verif_set_seed(
                        op.get("seed").and_then(|s| s.as_i64()).map(|s| s as i32).unwrap_or(self.seed),
                    );
                    self.observers.clear();
                    (true, J::Null)
                }
                Err(e) => (false, json!(e.to_string())),
            },
            "reset" => {
                let r = self.story.reset_state();
                if r.is_ok() {
                    self.story.verif_set_seed(self.seed);
                }
                unit(r)
            }
            "seed" => {
                self.seed = n("v") as i32;
                self.story.verif_set_seed(self.seed);
                (true, J::Null)
            }
            "switch" => {
                let r = self.story.switch_flow(&s("f"));
                unit(r)
            }
            "default_flow" => {
                self.story.switch_to_default_flow();
                (true, J::Null)
            }
            "remove" => {
                let r = self.story.remove_flow(&s("f"));
                unit(r)
            }
            "eval" => {
                let args = self.args(op);
                let mut text = String::new();
                match self.story.evaluate_function(&s("fn"), args.as_ref(), &mut text) {
                    Ok(v) => (
                        true,
                        json!({"v": v.map(|v| show(&v)).unwrap_or_default(), "t": text}),
                    ),
                    Err(e) => (false, json!(e.to_string())),
                }
            }
            // A divert target the host may only obtain from a story variable.
            "eval_with_var" => {
                let arg = self.story.get_variable(&s("var"));
                let mut text = String::new();
                let args = arg.map(|a| vec![a]);
                match self.story.evaluate_function(&s("fn"), args.as_ref(), &mut text) {
                    Ok(v) => (
                        true,
                        json!({"v": v.map(|v| show(&v)).unwrap_or_default(), "t": text}),
                    ),
                    Err(e) => (false, json!(e.to_string())),
                }
            }
            "set" => match value(&self.story, &s("v")) {
                Some(v) => {
                    let r = self.story.set_variable(&s("n"), &v);
                    unit(r)
                }
                None => (false, json!("bad value")),
            },
            "get" => (
                true,
                json!(self.story.get_variable(&s("n")).map(|v| show(&v))),
            ),
            "visit" => match self.story.get_visit_count_at_path_string(&s("p")) {
                Ok(v) => (true, json!(v)),
                Err(e) => (false, json!(e.to_string())),
            },
            "observe" => {
                let id = s("o");
                let log = self.log.clone();
                let o = self
                    .observers
                    .entry(id.clone())
                    .or_insert_with(|| Rc::new(RefCell::new(Obs { id, log })))
                    .clone();
                let r = self.story.observe_variable(&s("n"), o);
                unit(r)
            }
            "unobserve" => {
                let id = s("o");
                let log = self.log.clone();
                let o = self
                    .observers
                    .entry(id.clone())
                    .or_insert_with(|| Rc::new(RefCell::new(Obs { id, log })))
                    .clone();
                let name = op.get("n").and_then(|v| v.as_str());
                let r = self.story.remove_variable_observer(&o, name);
                unit(r)
            }
            "bind" => {
                let e = Ext {
                    log: self.log.clone(),
                    ret: op.get("ret").cloned().unwrap_or(J::Null),
                    count: 0,
                };
                let safe = op.get("safe").and_then(|v| v.as_bool()).unwrap_or(false);
                let r = self.story.bind_external_function(&s("n"), Rc::new(RefCell::new(e)), safe);
                unit(r)
            }
            "unbind" => {
                let r = self.story.unbind_external_function(&s("n"));
                unit(r)
            }
            "fallbacks" => {
                let v = op.get("v").and_then(|v| v.as_bool()).unwrap_or(true);
                self.story.set_allow_external_function_fallbacks(v);
                (true, J::Null)
            }
            "handler" => {
                self.story
                    .set_error_handler(Rc::new(RefCell::new(Handler { log: self.log.clone() })));
                (true, J::Null)
            }
            "jump" => {
                let args = self.args(op);
                let reset = op.get("reset").and_then(|v| v.as_bool()).unwrap_or(true);
                let r = self.story.choose_path_string(&s("p"), reset, args.as_ref());
                unit(r)
            }
            "global_tags" => match self.story.get_global_tags() {
                Ok(t) => (true, json!(t)),
                Err(e) => (false, json!(e.to_string())),
            },
            "tags_at" => match self.story.tags_for_content_at_path(&s("p")) {
                Ok(t) => (true, json!(t)),
                Err(e) => (false, json!(e.to_string())),
            },
            "hierarchy" => (true, json!(self.story.build_string_of_hierarchy().len())),
            "obs" => (true, J::Null),
            x => (false, json!(format!("unknown op {x}"))),
        }
    }
}

// ---------------------------------------------------------------- jobs

fn compile(job: &J) -> Result<String, J> {
    let src = job["src"].as_str().unwrap_or("");
    let files: HashMap<String, String> = job
        .get("files")
        .and_then(|f| f.as_object())
        .map(|m| {
            m.iter()
                .map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_owned()))
                .collect()
        })
        .unwrap_or_default();
    let mut o = CompilerOptions::default();
    if let Some(b) = job.get("count_all").and_then(|b| b.as_bool()) {
        o.count_all_visits = b;
    }
    o.source_filename = job.get("name").and_then(|n| n.as_str()).map(|n| n.to_owned());
    let c = Compiler::with_options(o);
    c.compile_with_file_handler(src, |f| {
        files
            .get(f)
            .cloned()
            .ok_or_else(|| CompilerError::invalid_source(format!("no file {f}")))
    })
    .map_err(|e| {
        let (file, line) = match &e {
            CompilerError::InvalidSource { file, line, .. }
            | CompilerError::UnsupportedFeature { file, line, .. } => (file, *line),
        };
        json!({"msg": e.to_string(), "line": line, "file": file, "text": e.message()})
    })
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_owned()
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn caught<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let t = panic_text(p);
        let at = LAST_PANIC.with(|l| l.borrow().clone());
        (t, at)
    })
}

fn construct(doc: &str, fuel: u64) -> Result<Story, J> {
    verif::set_fuel(fuel);
    let r = caught(|| Story::new(doc));
    verif::set_fuel(u64::MAX);
    match r {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(json!({"r": "new_err", "msg": e.to_string()})),
        Err((t, at)) => Err(json!({"r": if t == verif::OUT_OF_FUEL { "fuel" } else { "panic" }, "msg": t, "at": at})),
    }
}

fn new_session(job: &J, doc: &str) -> Result<Session, J> {
    let fuel = job.get("fuel").and_then(|f| f.as_u64()).unwrap_or(20_000);
    let w = job.get("watch");
    let seed = job.get("seed").and_then(|s| s.as_i64()).unwrap_or(42) as i32;
    let story = construct(doc, fuel)?;
    let mut s = Session {
        doc: doc.to_owned(),
        story,
        log: SharedLog::default(),
        observers: HashMap::new(),
        slots: HashMap::new(),
        watch: Watch {
            vars: strs(w.and_then(|w| w.get("vars"))),
            visits: strs(w.and_then(|w| w.get("visits"))),
            path: w.and_then(|w| w.get("path")).and_then(|b| b.as_bool()).unwrap_or(false),
        },
        seed,
    };
    s.story.verif_set_seed(seed);
    Ok(s)
}

/// One op with panics caught. `None` means the session is dead.
fn run_op(s: &mut Session, op: &J, fuel: u64) -> (J, bool) {
    verif::set_fuel(fuel);
    let r = caught(|| s.apply(op));
    verif::set_fuel(u64::MAX);
    match r {
        Ok((ok, val)) => {
            let mut o = Map::new();
            o.insert("r".into(), json!(if ok { "ok" } else { "err" }));
            if !val.is_null() {
                o.insert("v".into(), val);
            }
            if !op.get("q").and_then(|q| q.as_bool()).unwrap_or(false) {
                match caught(|| s.observe()) {
                    Ok(v) => {
                        o.insert("o".into(), v);
                    }
                    Err((t, at)) => {
                        o.insert("r".into(), json!("panic"));
                        o.insert("msg".into(), json!(t));
                        o.insert("at".into(), json!(at));
                        return (J::Object(o), false);
                    }
                }
            }
            (J::Object(o), true)
        }
        Err((t, at)) => {
            let r = if t == verif::OUT_OF_FUEL { "fuel" } else { "panic" };
            (json!({"r": r, "msg": t, "at": at}), false)
        }
    }
}

fn run_ops(job: &J, doc: &str, fuel: u64) -> J {
    let mut s = match new_session(job, doc) {
        Ok(s) => s,
        Err(e) => return e,
    };
    let mut out = Vec::new();
    for op in job["ops"].as_array().unwrap_or(&vec![]) {
        // an op only made when the one before was refused
        if op.get("iferr").and_then(|b| b.as_bool()).unwrap_or(false)
            && out.last().is_none_or(|r: &J| r["r"] != "err")
        {
            out.push(json!({"r": "skip"}));
            continue;
        }
        let (r, alive) = run_op(&mut s, op, fuel);
        out.push(r);
        if !alive {
            std::mem::forget(s);
            return json!({"r": "dead", "ops": out});
        }
    }
    match caught(move || drop(s)) {
        Ok(()) => json!({"r": "ok", "ops": out}),
        Err((t, at)) => json!({"r": "panic", "msg": t, "at": at, "ops": out}),
    }
}

/// All choice paths, one node per completed call (continue or choose).
fn run_tree(job: &J, doc: &str, fuel: u64) -> J {
    let t = &job["tree"];
    let max_choices = t["depth"].as_i64().unwrap_or(4);
    let max_nodes = t["nodes"].as_u64().unwrap_or(200) as usize;
    let max_lines = t["lines"].as_u64().unwrap_or(60);
    let want_save = t.get("save").and_then(|b| b.as_bool()).unwrap_or(false);
    let setup: Vec<J> = job.get("setup").and_then(|a| a.as_array()).cloned().unwrap_or_default();
    let cont_op = json!({"op": "cont"});
    let mut nodes: Vec<J> = Vec::new();
    // path = list of edges (-1 = cont, i >= 0 = choose i) to replay; parent id
    let mut work: Vec<(Vec<i64>, i64)> = vec![(vec![], -1)];
    let mut truncated = false;
    while let Some((path, parent)) = work.pop() {
        if nodes.len() >= max_nodes {
            truncated = true;
            break;
        }
        let mut s = match new_session(job, doc) {
            Ok(s) => s,
            Err(e) => return json!({"r": "nostory", "e": e, "nodes": nodes}),
        };
        let mut dead = false;
        for op in &setup {
            let (_, alive) = run_op(&mut s, op, fuel);
            if !alive {
                dead = true;
            }
        }
        // replay everything but the last edge quietly
        let mut cur = parent;
        let mut edges = path.clone();
        let mut first = path.is_empty();
        let last = edges.pop();
        for e in &edges {
            let op = if *e < 0 {
                json!({"op": "cont", "q": true})
            } else {
                json!({"op": "choose", "i": e, "q": true})
            };
            let (_, alive) = run_op(&mut s, &op, fuel);
            if !alive {
                dead = true;
                break;
            }
        }
        if dead {
            std::mem::forget(s);
            return json!({"r": "replay_died", "nodes": nodes});
        }
        s.log.borrow_mut().notes.clear();
        s.log.borrow_mut().calls.clear();
        s.log.borrow_mut().handler.clear();
        // then walk on, taking choice 0 each time and queueing the others
        let mut next = last;
        let mut alive_all = true;
        let mut full = path.clone();
        let mut lines = 0;
        loop {
            let (mut r, alive) = if first {
                first = false;
                run_op(&mut s, &json!({"op": "obs"}), fuel)
            } else {
                let e = next.unwrap();
                let op = if e < 0 { cont_op.clone() } else { json!({"op": "choose", "i": e}) };
                run_op(&mut s, &op, fuel)
            };
            let id = nodes.len() as i64;
            {
                let m = r.as_object_mut().unwrap();
                m.insert("p".into(), json!(cur));
                m.insert("e".into(), json!(next.unwrap_or(-2)));
                if alive && want_save {
                    let v = match caught(|| s.story.save_state()) {
                        Ok(Ok(t)) => serde_json::from_str::<J>(&t)
                            .map(|j| canon(&j).to_string())
                            .unwrap_or_else(|e| format!("unparsable: {e}")),
                        Ok(Err(e)) => format!("save error: {e}"),
                        Err((t, at)) => format!("save panic: {t} {at}"),
                    };
                    m.insert("save".into(), json!(v));
                }
            }
            let is_err = r["r"] == json!("err");
            nodes.push(r);
            cur = id;
            if !alive {
                alive_all = false;
                break;
            }
            if nodes.len() >= max_nodes {
                truncated = true;
                break;
            }
            if is_err {
                break;
            }
            if s.story.can_continue() {
                lines += 1;
                if lines > max_lines {
                    truncated = true;
                    break;
                }
                next = Some(-1);
                full.push(-1);
                continue;
            }
            let n = s.story.get_current_choices().len() as i64;
            let depth = full.iter().filter(|e| **e >= 0).count() as i64;
            if n == 0 {
                break;
            }
            if depth >= max_choices {
                truncated = true;
                break;
            }
            for i in (1..n).rev() {
                let mut p = full.clone();
                p.push(i);
                work.push((p, cur));
            }
            lines = 0;
            next = Some(0);
            full.push(0);
        }
        if !alive_all {
            std::mem::forget(s);
        }
    }
    json!({"r": "ok", "nodes": nodes, "truncated": truncated})
}

/// Create, play and drop repeatedly; live bytes after every round.
fn run_mem(job: &J, doc: &str, fuel: u64) -> J {
    let rounds = job["mem"]["rounds"].as_u64().unwrap_or(5);
    let ops: Vec<J> = job["ops"].as_array().cloned().unwrap_or_default();
    let within: Vec<J> = job["mem"]["repeat"].as_array().cloned().unwrap_or_default();
    let nrep = job["mem"]["nrep"].as_u64().unwrap_or(0) as usize;
    let mut after: Vec<i64> = Vec::with_capacity(rounds as usize + 8);
    let mut inner: Vec<i64> = Vec::with_capacity(nrep + 8);
    let mut died = J::Null;
    for round in 0..rounds {
        {
            let mut s = match new_session(job, doc) {
                Ok(s) => s,
                Err(e) => return e,
            };
            for op in &ops {
                let (r, alive) = run_op(&mut s, op, fuel);
                if !alive {
                    died = r;
                    break;
                }
            }
            if died.is_null() && round + 1 == rounds {
                for _ in 0..nrep {
                    for op in &within {
                        let (r, alive) = run_op(&mut s, op, fuel);
                        if !alive {
                            died = r;
                            break;
                        }
                    }
                    s.log.borrow_mut().notes = Vec::new();
                    s.log.borrow_mut().calls = Vec::new();
                    s.log.borrow_mut().handler = Vec::new();
                    inner.push(live());
                }
            }
        }
        after.push(live());
        if !died.is_null() {
            return json!({"r": "dead", "op": died});
        }
    }
    json!({"r": "ok", "after": after, "inner": inner})
}

fn run_job(job: &J) -> J {
    FULL.with(|f| f.set(job.get("full").and_then(|b| b.as_bool()).unwrap_or(false)));
    let fuel = job.get("fuel").and_then(|f| f.as_u64()).unwrap_or(20_000);
    let doc = if job.get("src").is_some() {
        match caught(|| compile(job)) {
            Ok(Ok(d)) => d,
            Ok(Err(e)) => return json!({"r": "compile_err", "e": e}),
            Err((t, at)) => return json!({"r": "compile_panic", "msg": t, "at": at}),
        }
    } else if let Some(p) = job.get("json_file").and_then(|p| p.as_str()) {
        std::fs::read_to_string(p).unwrap_or_default()
    } else {
        job["json"].as_str().unwrap_or("").to_owned()
    };
    let doc = doc.strip_prefix('\u{feff}').map(|s| s.to_owned()).unwrap_or(doc);
    let mut out = Map::new();
    if job.get("want_json").and_then(|b| b.as_bool()).unwrap_or(false) {
        out.insert("json".into(), json!(doc));
    }
    if job.get("compile").is_some() {
        out.insert("r".into(), json!("ok"));
        if job["compile"].get("load").is_some() {
            let r = match caught(|| Story::new(&doc)) {
                Ok(Ok(_)) => json!("ok"),
                Ok(Err(e)) => json!(format!("err: {e}")),
                Err((t, at)) => json!(format!("panic: {t} {at}")),
            };
            out.insert("load".into(), r);
        }
        return J::Object(out);
    }
    if job.get("new").is_some() {
        // construction only
        return match construct(&doc, fuel) {
            Ok(_) => json!({"r": "ok"}),
            Err(e) => e,
        };
    }
    if job.get("parse_paths").is_some() {
        let ps = strs(job.get("parse_paths"));
        let l: Vec<J> = ps
            .iter()
            .map(|p| match caught(|| Story::verif_parse_path(p)) {
                Ok(v) => v,
                Err((t, at)) => json!({"panic": t, "at": at}),
            })
            .collect();
        return json!({"r": "ok", "paths": l});
    }
    if let Some(a) = job.get("audit") {
        let s = match new_session(job, &doc) {
            Ok(s) => s,
            Err(e) => return e,
        };
        match caught(|| s.story.verif_audit()) {
            Ok(v) => {
                out.insert("audit".into(), v);
            }
            Err((t, at)) => return json!({"r": "panic", "msg": t, "at": at}),
        }
        if let Some(ps) = a.get("pairs").and_then(|p| p.as_array()) {
            let pairs: Vec<(usize, usize)> = ps
                .iter()
                .map(|p| (p[0].as_u64().unwrap() as usize, p[1].as_u64().unwrap() as usize))
                .collect();
            match caught(|| s.story.verif_relative(&pairs)) {
                Ok(v) => {
                    out.insert("pairs".into(), v);
                }
                Err((t, at)) => return json!({"r": "panic", "msg": t, "at": at}),
            }
        }
        if a.get("tree").is_some() {
            match caught(|| s.story.verif_tree()) {
                Ok(Ok(v)) => {
                    out.insert("tree".into(), canon(&v));
                }
                Ok(Err(e)) => {
                    out.insert("tree".into(), json!(format!("err: {e}")));
                }
                Err((t, at)) => return json!({"r": "panic", "msg": t, "at": at}),
            }
        }
        out.insert("r".into(), json!("ok"));
        return J::Object(out);
    }
    let r = if job.get("tree").is_some() {
        run_tree(job, &doc, fuel)
    } else if job.get("mem").is_some() {
        run_mem(job, &doc, fuel)
    } else {
        run_ops(job, &doc, fuel)
    };
    if let J::Object(m) = r {
        for (k, v) in m {
            out.insert(k, v);
        }
    }
    J::Object(out)
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let at = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = at);
    }));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        if line.trim().is_empty() {
            continue;
        }
        let mut res = match serde_json::from_str::<J>(&line) {
            Ok(job) => {
                let id = job.get("id").cloned().unwrap_or(J::Null);
                let mut r = run_job(&job);
                if let Some(m) = r.as_object_mut() {
                    m.insert("id".into(), id);
                }
                r
            }
            Err(e) => json!({"r": "bad_job", "msg": e.to_string()}),
        };
        if res.is_null() {
            res = json!({"r": "none"});
        }
        let mut o = stdout.lock();
        let _ = writeln!(o, "{res}");
        let _ = o.flush();
    }
}
