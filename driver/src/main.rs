//! Thin driver around the public API of flapigen: reads jobs (JSON, one per line)
//! and runs the generator once per job, in this process.
//!
//! usage: fgdrive JOBS.jsonl      -> one result line per job on stdout ("RESULT {...}")
use flapigen::{
    CppConfig, CppOptional, CppStrView, CppVariant, Generator, JavaConfig, JavaReachabilityFence,
    LanguageConfig, PythonConfig,
};
use serde_json::{json, Value};
use std::{
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{Arc, Mutex},
};

mod seed {
    use std::sync::atomic::{AtomicU64, Ordering};
    pub static STATE: AtomicU64 = AtomicU64::new(0);
    /// Own the only source of randomness a std-only program has (hash seeds).
    #[no_mangle]
    pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
        for i in 0..len {
            let x = STATE.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed);
            let z = (x ^ (x >> 31)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            *buf.add(i) = (z >> 29) as u8;
        }
        len as isize
    }
}

fn s<'a>(v: &'a Value, k: &str) -> Option<&'a str> {
    v.get(k).and_then(|x| x.as_str())
}

fn config(job: &Value) -> LanguageConfig {
    let out_dir = PathBuf::from(s(job, "out_dir").unwrap_or("."));
    match s(job, "lang").unwrap() {
        "cpp" => {
            let mut c = CppConfig::new(out_dir, s(job, "ns").unwrap_or("org_ex").into());
            if job.get("boost").and_then(|x| x.as_bool()) == Some(true) {
                c = c.use_boost();
            }
            match s(job, "optional") {
                Some("std") => c = c.cpp_optional(CppOptional::Std17),
                Some("boost") => c = c.cpp_optional(CppOptional::Boost),
                _ => {}
            }
            match s(job, "variant") {
                Some("std") => c = c.cpp_variant(CppVariant::Std17),
                Some("boost") => c = c.cpp_variant(CppVariant::Boost),
                _ => {}
            }
            match s(job, "strview") {
                Some("std") => c = c.cpp_str_view(CppStrView::Std17),
                Some("boost") => c = c.cpp_str_view(CppStrView::Boost),
                _ => {}
            }
            if let Some(b) = job.get("sep").and_then(|x| x.as_bool()) {
                c = c.separate_impl_headers(b);
            }
            LanguageConfig::CppConfig(c)
        }
        "java" => {
            let mut c = JavaConfig::new(out_dir, s(job, "package").unwrap_or("org.ex").into());
            if let Some(p) = s(job, "null_pkg") {
                c = c.use_null_annotation_from_package(p.into());
            }
            if let Some(p) = s(job, "opt_pkg") {
                c = c.use_optional_package(p.into());
            }
            match s(job, "fence") {
                Some("std") => c = c.use_reachability_fence(JavaReachabilityFence::Std),
                Some(n) => {
                    c = c.use_reachability_fence(JavaReachabilityFence::GenerateFence(
                        n.parse().unwrap(),
                    ))
                }
                None => {}
            }
            LanguageConfig::JavaConfig(c)
        }
        "python" => {
            LanguageConfig::PythonConfig(PythonConfig::new(s(job, "module").unwrap_or("exmod").into()))
        }
        l => panic!("unknown lang {l}"),
    }
}

fn run(job: &Value, log: &Arc<Mutex<Vec<Value>>>) {
    let mut g = Generator::new(config(job));
    if let Some(w) = job.get("ptr_width").and_then(|x| x.as_u64()) {
        g = g.with_pointer_target_width(w as usize);
    } else {
        g = g.with_pointer_target_width(64);
    }
    if let Some(b) = job.get("rustfmt").and_then(|x| x.as_bool()) {
        g = g.rustfmt_bindings(b);
    }
    if let Some(b) = job.get("remove").and_then(|x| x.as_bool()) {
        g = g.remove_not_generated_files_from_output_directory(b);
    }
    if let Some(ms) = job.get("merge").and_then(|x| x.as_array()) {
        for m in ms {
            let code = match s(m, "file") {
                Some(f) => std::fs::read_to_string(f).unwrap(),
                None => s(m, "code").unwrap().to_string(),
            };
            g = g.merge_type_map(s(m, "id").unwrap(), &code);
        }
    }
    if let Some(cbs) = job.get("callbacks").and_then(|x| x.as_array()) {
        for cb in cbs {
            let kind = s(cb, "kind").unwrap().to_string();
            let attr = s(cb, "attr").unwrap().to_string();
            let append = s(cb, "append").unwrap_or("").to_string();
            let clear = cb.get("clear").and_then(|x| x.as_bool()).unwrap_or(false);
            let log = log.clone();
            let (k, a) = (kind.clone(), attr.clone());
            let body = move |code: &mut Vec<u8>, args: Value| {
                let before = String::from_utf8_lossy(code).into_owned();
                log.lock().unwrap().push(json!({"kind": k, "attr": a, "args": args, "code": before}));
                if clear {
                    code.clear();
                }
                let text = append.replace("{arg}", args[0].as_str().unwrap_or(""));
                code.extend_from_slice(text.as_bytes());
            };
            g = match kind.as_str() {
                "class" => g.register_class_attribute_callback(&attr, move |code, name| {
                    body(code, json!([name]))
                }),
                "method" => g.register_method_attribute_callback(&attr, move |code, method| {
                    body(code, json!([method.class_name, method.method_name]))
                }),
                "enum" => g.register_enum_attribute_callback(&attr, move |code, name| {
                    body(code, json!([name]))
                }),
                x => panic!("callback kind {x}"),
            };
        }
    }
    let srcs: Vec<PathBuf> = job["srcs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| PathBuf::from(x.as_str().unwrap()))
        .collect();
    let dst = s(job, "out_rs").unwrap();
    let crate_name = s(job, "crate").unwrap_or("ex");
    if srcs.len() == 1 && job.get("many").is_none() {
        g.expand(crate_name, &srcs[0], dst);
    } else {
        g.expand_many(crate_name, &srcs, dst);
    }
}

fn main() {
    let path = std::env::args().nth(1).expect("usage: fgdrive JOBS.jsonl");
    if let Some(v) = std::env::args().nth(2) {
        seed::STATE.store(v.parse().unwrap(), std::sync::atomic::Ordering::Relaxed);
    }
    let text = std::fs::read_to_string(path).unwrap();
    let mut failed = 0;
    for (i, line) in text.lines().filter(|l| !l.trim().is_empty()).enumerate() {
        let job: Value = serde_json::from_str(line).unwrap();
        let log = Arc::new(Mutex::new(Vec::new()));
        let r = catch_unwind(AssertUnwindSafe(|| run(&job, &log)));
        let ok = r.is_ok();
        let msg = match r {
            Ok(()) => String::new(),
            Err(e) => e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                .unwrap_or_else(|| "?".into()),
        };
        if !ok {
            failed += 1;
        }
        let log = log.lock().unwrap_or_else(|e| e.into_inner());
        println!("RESULT {}", json!({"i": i, "ok": ok, "panic": msg, "log": *log}));
    }
    std::process::exit(if failed > 0 { 3 } else { 0 });
}
