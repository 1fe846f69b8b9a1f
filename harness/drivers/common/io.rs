// Reads one JSON case per line, answers one JSON line each (after a mark, as the code under test may print);
// a panic of the code under test is an answer.
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[allow(dead_code)]
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

#[allow(dead_code)]
pub fn serve(mut answer: impl FnMut(serde_json::Value) -> serde_json::Value) {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = stdout.lock();
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.is_empty() {
            continue;
        }
        let case: serde_json::Value = serde_json::from_str(&line).expect("case");
        let reply = match caught(|| answer(case)) {
            Ok(v) => v,
            Err(m) => serde_json::json!({ "panic": m }),
        };
        writeln!(out, "\u{1e}{reply}").expect("stdout");
        out.flush().expect("stdout");
    }
}
