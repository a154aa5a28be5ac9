// Executes the analyser on a batch of cases and records what it did.
//
// stdin:  one JSON object per line {"i": n, "d": text, "p": text|null, "ops": "vjm", "reps": k}
//         where a text has one character per byte (Latin-1).
// stdout: "S i" when a case starts, then "R <json>" with the record of the case.
//
// Verdicts are arrays of strings: ["ok"], ["lex",type,lexeme,line], ["syn",found,line],
// ["sem",kind,...], ["panic",message]; the parent adds ["hang"] and ["crash"].
use hddl_analyzer::{HDDLAnalyzer, LexicalErrorType, ParsingError, SemanticErrorType, WarningType};
use serde_json::{json, Value};
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

fn latin1(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}

macro_rules! strs {
    ($($x:expr),*) => { vec![$(($x).to_string()),*] };
}

#[allow(unreachable_patterns)]
fn verdict(error: &ParsingError) -> Vec<String> {
    match error {
        ParsingError::Lexiacal(e) => {
            let kind = match e.error_type {
                LexicalErrorType::InvalidIdentifier => "InvalidIdentifier",
                LexicalErrorType::InvalidKeyword => "InvalidKeyword",
                LexicalErrorType::InvalidRealNumber => "InvalidRealNumber",
                _ => "other",
            };
            strs!["lex", kind, e.lexeme, e.position.line]
        }
        ParsingError::Syntactic(e) => strs!["syn", e.found, e.position.line],
        ParsingError::Semantic(e) => semantic(e),
    }
}

#[allow(unreachable_patterns)]
fn semantic(error: &SemanticErrorType) -> Vec<String> {
    use SemanticErrorType::*;
    let none = "-".to_string();
    match error {
        DuplicateObjectDeclaration(d) => strs!["sem", "DuplicateObjectDeclaration", d.symbol, d.first_pos.line, d.second_pos.line],
        DuplicateRequirementDeclaration(r) => strs!["sem", "DuplicateRequirementDeclaration", r],
        DuplicatePredicateDeclaration(d) => strs!["sem", "DuplicatePredicateDeclaration", d.symbol, d.first_pos.line, d.second_pos.line],
        DuplicateActionDeclaration(d) => strs!["sem", "DuplicateActionDeclaration", d.symbol, d.first_pos.line, d.second_pos.line],
        DuplicateCompoundTaskDeclaration(d) => strs!["sem", "DuplicateCompoundTaskDeclaration", d.symbol, d.first_pos.line, d.second_pos.line],
        DuplicateMethodDeclaration(d) => strs!["sem", "DuplicateMethodDeclaration", d.symbol, d.first_pos.line, d.second_pos.line],
        DuplicateParameterDeclaration(d) => strs!["sem", "DuplicateParameterDeclaration", d.symbol, d.first_pos.line, d.second_pos.line],
        UndefinedPredicate(u) => strs!["sem", "UndefinedPredicate", u.symbol, u.position.line],
        UndefinedType(u) => strs!["sem", "UndefinedType", u.symbol, u.position.line],
        UndefinedSubtask(u) => strs!["sem", "UndefinedSubtask", u.symbol, u.position.line],
        UndefinedTask(u) => strs!["sem", "UndefinedTask", u.symbol, u.position.line],
        UndefinedParameter(u) => strs!["sem", "UndefinedParameter", u.symbol, u.position.line],
        UndefinedObject(u) => strs!["sem", "UndefinedObject", u.symbol, u.position.line],
        InconsistentPredicateArity(a) => strs!["sem", "InconsistentPredicateArity", a.symbol, a.expected_arity, a.found_arity, a.position.line],
        InconsistentTaskArity(a) => strs!["sem", "InconsistentTaskArity", a.symbol, a.expected_arity, a.found_arity, a.position.line],
        InconsistentPredicateArgType(t) => strs!["sem", "InconsistentPredicateArgType", t.var_name, t.expected.as_ref().unwrap_or(&none), t.found.as_ref().unwrap_or(&none), t.position.line],
        InconsistentTaskArgType(t) => strs!["sem", "InconsistentTaskArgType", t.var_name, t.expected.as_ref().unwrap_or(&none), t.found.as_ref().unwrap_or(&none), t.position.line],
        CyclicTypeDeclaration => strs!["sem", "CyclicTypeDeclaration"],
        CyclicOrderingDeclaration(p) => strs!["sem", "CyclicOrderingDeclaration", p.line],
        _ => strs!["sem", "other", error],
    }
}

#[allow(unreachable_patterns)]
fn warning(w: &WarningType) -> Vec<String> {
    match w {
        WarningType::NoPrimitiveRefinement(info) => strs![info.symbol, info.position.line],
        _ => strs!["other"],
    }
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Vec<String>> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let msg = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        strs!["panic", msg]
    })
}

fn verify(d: &Vec<u8>, p: Option<&Vec<u8>>) -> Value {
    let r = guarded(|| {
        HDDLAnalyzer::verify(d, p)
            .map(|ws| {
                let text: Vec<String> = ws.iter().map(|w| w.to_string()).collect();
                (ws.iter().map(warning).collect::<Vec<_>>(), text)
            })
            .map_err(|e| (verdict(&e), e.to_string()))
    });
    match r {
        Ok(Ok((ws, text))) => json!({"v": ["ok"], "w": ws, "t": text}),
        Ok(Err((v, text))) => json!({"v": v, "w": [], "t": [text]}),
        Err(v) => json!({"v": v, "w": [], "t": []}),
    }
}

fn to_json(d: &Vec<u8>, p: Option<&Vec<u8>>) -> Value {
    let r = guarded(|| HDDLAnalyzer::to_json(d, p).map_err(|e| (verdict(&e), e.to_string())));
    match r {
        Ok(Ok(s)) => json!({"v": ["ok"], "json": s, "t": ""}),
        Ok(Err((v, t))) => json!({"v": v, "json": "", "t": t}),
        Err(v) => json!({"v": v, "json": "", "t": ""}),
    }
}

fn metadata(d: &Vec<u8>, p: Option<&Vec<u8>>) -> Value {
    let r = guarded(|| {
        HDDLAnalyzer::get_metadata(d, p)
            .map(|m| {
                json!({"v": ["ok"], "nul": m.nullables, "rec": m.recursion.to_string(), "t": m.to_string(),
                       "cnt": [m.n_actions.to_string(), m.n_tasks.to_string(), m.n_methods.to_string()]})
            })
            .map_err(|e| (verdict(&e), e.to_string()))
    });
    match r {
        Ok(Ok(m)) => m,
        Ok(Err((v, t))) => json!({"v": v, "nul": [], "rec": "", "t": t, "cnt": []}),
        Err(v) => json!({"v": v, "nul": [], "rec": "", "t": "", "cnt": []}),
    }
}

fn digest(v: &Value) -> String {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.to_string().hash(&mut h);
    format!("{:016x}", h.finish())
}

static STARTED: AtomicU64 = AtomicU64::new(0);

fn now() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .map(|d| d.as_millis() as u64)
        .unwrap_or(0)
}

fn main() {
    let limit_ms: u64 = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(10_000);
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(100));
        let s = STARTED.load(Ordering::SeqCst);
        if s != 0 && now().saturating_sub(s) > limit_ms {
            // the parent sees the exit status and records a hang
            std::process::exit(97);
        }
    });
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).unwrap();
        let d = latin1(case["d"].as_str().unwrap());
        let p = case["p"].as_str().map(latin1);
        let ops = case["ops"].as_str().unwrap_or("v");
        let reps = case["reps"].as_u64().unwrap_or(1);
        let stage = |op: &str| {
            let out = std::io::stdout();
            let mut out = out.lock();
            writeln!(out, "S {} {}", case["i"], op).unwrap();
            out.flush().unwrap();
            STARTED.store(now(), Ordering::SeqCst);
        };
        let mut runs: Vec<String> = vec![];
        let mut record = json!({});
        for k in 0..reps {
            let mut r = json!({});
            for op in ops.chars() {
                match op {
                    'v' => {
                        stage("v");
                        r["v"] = verify(&d, p.as_ref());
                    }
                    'z' => {
                        stage("z");
                        r["z"] = verify(&d, None);
                    }
                    'j' => {
                        stage("j");
                        r["j"] = to_json(&d, p.as_ref());
                    }
                    'm' => {
                        stage("m");
                        r["m"] = metadata(&d, p.as_ref());
                    }
                    _ => {}
                }
            }
            runs.push(digest(&r));
            if k == 0 {
                record = r;
            }
        }
        STARTED.store(0, Ordering::SeqCst);
        record["i"] = case["i"].clone();
        record["runs"] = json!(runs);
        let out = std::io::stdout();
        let mut out = out.lock();
        writeln!(out, "R {}", record).unwrap();
        out.flush().unwrap();
    }
}
