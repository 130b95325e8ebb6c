use bb::report::Report;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].as_str();
    let out = &a[2];
    // writes to closed sockets are errors, not signals
    unsafe {
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
    }
    let r: Report = bb::props::run(prop);
    std::fs::write(out, serde_json::to_string_pretty(&r.json()).unwrap()).unwrap();
}
