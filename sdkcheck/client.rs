//! Talks to the SDK behind its line protocol (see src/main.rs).
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Sdk { child: Child, to: Option<ChildStdin>, from: BufReader<ChildStdout> }
impl Sdk {
    pub fn start(target: &str) -> Result<Sdk, String> {
        let mut child = Command::new(format!("{target}/sdkcheck/release/sdkcheck")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("the SDK process does not start: {e}"))?;
        let (to, from) = (child.stdin.take(), BufReader::new(child.stdout.take().unwrap()));
        Ok(Sdk { child, to, from })
    }
    /// One answer per line: "ok ..." or "fail" or "panic".
    pub fn ask(&mut self, lines: &[String]) -> Result<Vec<String>, String> {
        let mut out = Vec::with_capacity(lines.len());
        for part in lines.chunks(2000) {
            let mut b = part.join("\n"); b.push_str("\n.\n");
            let w = self.to.as_mut().unwrap();
            w.write_all(b.as_bytes()).and_then(|_| w.flush()).map_err(|e| format!("the SDK process ended: {e}"))?;
            for _ in part {
                let mut l = String::new();
                if self.from.read_line(&mut l).map_err(|e| e.to_string())? == 0 { return Err("the SDK process ended".into()) }
                let l = l.trim_end().to_string();
                if l.starts_with("bad") { return Err(format!("the SDK process: {l}")) }
                out.push(l);
            }
        }
        Ok(out)
    }
    pub fn one(&mut self, line: String) -> Result<String, String> { Ok(self.ask(&[line])?.pop().unwrap()) }
}
impl Drop for Sdk { fn drop(&mut self) { drop(self.to.take()); let _ = self.child.wait(); } }
