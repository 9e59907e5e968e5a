//! Verification driver: runs a script of public-API calls against chiwawa.
//!
//! The script and the result channel are two imports (`cw.script`, `cw.emit`)
//! so that the driver itself consumes no WASI file descriptor, argument or
//! standard stream that the guest program could observe.

use chiwawa::{
    execution::migration,
    execution::module::*,
    execution::runtime::Runtime,
    execution::value::*,
    parser,
    structure::module::Module,
};
use rustc_hash::FxHashMap;
use std::rc::Rc;

#[link(wasm_import_module = "cw")]
extern "C" {
    fn script(ptr: *mut u8, cap: usize) -> usize;
    fn emit(ptr: *const u8, len: usize);
    fn blob(tag: u32, ptr: *const u8, len: usize);
}

fn say(s: String) {
    unsafe { emit(s.as_ptr(), s.len()) }
}

fn show(v: &Val) -> String {
    match v {
        Val::Num(Num::I32(x)) => format!("i32:{:x}", *x as u32),
        Val::Num(Num::I64(x)) => format!("i64:{:x}", *x as u64),
        Val::Num(Num::F32(x)) => format!("f32:{:x}", x.to_bits()),
        Val::Num(Num::F64(x)) => format!("f64:{:x}", x.to_bits()),
        Val::Ref(Ref::RefNull) => "ref:null".to_string(),
        Val::Ref(Ref::FuncAddr(_)) => "ref:func".to_string(),
        Val::Ref(Ref::RefExtern(_)) => "ref:extern".to_string(),
        _ => "other".to_string(),
    }
}

fn parse_val(s: &str) -> Val {
    let (t, x) = s.split_once(':').expect("param");
    match t {
        "i32" => Val::Num(Num::I32(u32::from_str_radix(x, 16).unwrap() as i32)),
        "i64" => Val::Num(Num::I64(u64::from_str_radix(x, 16).unwrap() as i64)),
        "f32" => Val::Num(Num::F32(f32::from_bits(u32::from_str_radix(x, 16).unwrap()))),
        "f64" => Val::Num(Num::F64(f64::from_bits(u64::from_str_radix(x, 16).unwrap()))),
        "ref" => Val::Ref(Ref::RefNull),
        _ => panic!("driver: bad param {}", s),
    }
}

fn outcome(r: Result<Vec<Val>, chiwawa::error::RuntimeError>) -> String {
    match r {
        Ok(vs) => format!(
            "ret {}",
            vs.iter().map(show).collect::<Vec<_>>().join(",")
        ),
        Err(e) => format!("trap {:?}", e),
    }
}

#[cfg(feature = "trace")]
fn trace_config(spec: &str) -> Option<chiwawa::execution::trace::TraceConfig> {
    // spec: "-" (none) or "<ev+ev|*>/<res+res|*>/<path|*>"
    if spec == "-" {
        return None;
    }
    let p: Vec<&str> = spec.split('/').collect();
    let list = |s: &str| -> Option<Vec<String>> {
        if s == "*" {
            None
        } else {
            Some(
                s.split('+')
                    .filter(|x| !x.is_empty())
                    .map(|x| x.to_string())
                    .collect(),
            )
        }
    };
    Some(chiwawa::execution::trace::TraceConfig::new(
        list(p[0]),
        list(p[1]),
        if p[2] == "*" {
            None
        } else {
            Some(p[2].to_string())
        },
    ))
}

fn main() {
    let n = unsafe { script(std::ptr::null_mut(), 0) };
    let mut buf = vec![0u8; n];
    unsafe { script(buf.as_mut_ptr(), n) };
    let text = String::from_utf8(buf).unwrap();
    let mut inst: Option<Rc<ModuleInst>> = None;
    let mut all: Vec<Rc<ModuleInst>> = Vec::new();
    #[allow(unused_mut, unused_variables, unused_assignments)]
    let mut trace_spec: String = "-".to_string();
    let mut stats = false;
    for line in text.lines() {
        let w: Vec<&str> = line.split('\t').collect();
        match w[0] {
            "load" => {
                let mut module = Module::new("test");
                match parser::parse_bytecode(&mut module, w[1]) {
                    Err(e) => {
                        say(format!("parse-error {:?}", e.to_string()));
                        return;
                    }
                    Ok(()) => {}
                }
                let imports: ImportObjects = FxHashMap::default();
                let argv: Vec<String> = w[2..].iter().map(|s| s.to_string()).collect();
                match ModuleInst::new(&module, imports, argv) {
                    Ok(i) => {
                        all.push(Rc::clone(&i));
                        inst = Some(i);
                        say("loaded".to_string());
                    }
                    Err(e) => {
                        say(format!("inst-error {:?}", e));
                        return;
                    }
                }
            }
            // use <n>: go on with the n-th instance loaded
            "use" => {
                inst = Some(Rc::clone(&all[w[1].parse::<usize>().unwrap()]));
            }
            // keeps the allocations made so far from growing in place
            "barrier" => {
                Box::leak(vec![0u8; 70000].into_boxed_slice());
            }
            "trace" => {
                trace_spec = w[1].to_string();
            }
            "stats" => {
                stats = w[1] == "1";
            }
            // call <export> <cr 0|1> [params...]
            "call" => {
                let i = inst.as_ref().unwrap();
                let params: Vec<Val> = w[3..].iter().map(|s| parse_val(s)).collect();
                let f = match i.get_export_func(w[1]) {
                    Ok(f) => f,
                    Err(e) => {
                        say(format!("trap {:?}", e));
                        continue;
                    }
                };
                let rt = Runtime::new(
                    Rc::clone(i),
                    &f,
                    params,
                    stats,
                    w[2] == "1",
                    #[cfg(feature = "trace")]
                    trace_config(&trace_spec),
                );
                match rt {
                    Ok(mut rt) => say(outcome(rt.run())),
                    Err(e) => say(format!("rt-error {:?}", e)),
                }
            }
            // restore <path> <cr 0|1>
            "restore" => {
                let i = inst.as_ref().unwrap();
                match migration::restore(Rc::clone(i), w[1]) {
                    Ok(stacks) => {
                        say("restored".to_string());
                        let mut rt = Runtime::new_restored(
                            Rc::clone(i),
                            stacks,
                            stats,
                            w[2] == "1",
                            #[cfg(feature = "trace")]
                            trace_config(&trace_spec),
                        );
                        say(outcome(rt.run()));
                    }
                    Err(e) => say(format!("restore-error {:?}", e)),
                }
            }
            "mem" => {
                let i = inst.as_ref().unwrap();
                match i.mem_addrs.first() {
                    Some(m) => {
                        let d = m.get_data();
                        unsafe { blob(0, d.as_ptr(), d.len()) };
                        say(format!("mem {}", d.len()));
                    }
                    None => say("mem none".to_string()),
                }
            }
            "globals" => {
                let i = inst.as_ref().unwrap();
                say(format!(
                    "globals {}",
                    i.global_addrs
                        .iter()
                        .map(|g| show(&g.get()))
                        .collect::<Vec<_>>()
                        .join(",")
                ));
            }
            _ => panic!("driver: bad line {}", line),
        }
    }
    say("done".to_string());
}
