//! Oracle of C14: is a byte string a WebAssembly module, and may the module be run
//! without bounds (no loops, no recursion)?

use wasmparser::{CompositeType, Operator, ValType, Parser, Payload, Validator, WasmFeatures};

#[no_mangle]
pub extern "C" fn alloc(n: usize) -> *mut u8 {
    let mut v = Vec::<u8>::with_capacity(n.max(1));
    let p = v.as_mut_ptr();
    std::mem::forget(v);
    p
}
#[no_mangle]
pub unsafe extern "C" fn release(p: *mut u8, n: usize) {
    drop(Vec::from_raw_parts(p, 0, n.max(1)))
}

const INVALID_ANY: u32 = 1; // not valid with any feature
const UNBOUNDED: u32 = 2; // loops or may recurse
const ACCESS: u32 = 4; // touches memory, or computes with floating-point numbers
const COMPONENT: u32 = 8;
const NOT_DEFAULT: u32 = 32; // needs more than the default features
const IMPORTS: u32 = 16; // imports other than fd_write and sched_yield, of their types

fn look(bytes: &[u8]) -> Result<u32, wasmparser::BinaryReaderError> {
    let mut r = 0;
    let mut func = 0u32;
    let mut imported = 0u32;
    let mut types: Vec<Option<(Vec<ValType>, Vec<ValType>)>> = vec![];
    for p in Parser::new(0).parse_all(bytes) {
        match p? {
            Payload::Version { encoding, .. } => {
                if encoding != wasmparser::Encoding::Module {
                    return Ok(COMPONENT);
                }
            }
            Payload::TypeSection(s) => {
                for g in s {
                    for t in g?.into_types() {
                        types.push(match t.composite_type {
                            CompositeType::Func(f) => {
                                Some((f.params().to_vec(), f.results().to_vec()))
                            }
                            _ => None,
                        })
                    }
                }
            }
            Payload::ImportSection(s) => {
                for i in s {
                    let i = i?;
                    match i.ty {
                        wasmparser::TypeRef::Func(t) => {
                            imported += 1;
                            let n = match i.name {
                                "fd_write" => 4,
                                "sched_yield" => 0,
                                _ => 99,
                            };
                            let want = Some((vec![ValType::I32; n], vec![ValType::I32]));
                            if types.get(t as usize) != Some(&want) {
                                r |= IMPORTS
                            }
                        }
                        _ => r |= IMPORTS,
                    }
                }
                func = imported;
            }
            Payload::CodeSectionEntry(b) => {
                for op in b.get_operators_reader()? {
                    match op? {
                        Operator::Loop { .. } => r |= UNBOUNDED,
                        Operator::Call { function_index } | Operator::ReturnCall { function_index } => {
                            if function_index >= imported && function_index <= func {
                                r |= UNBOUNDED
                            }
                        }
                        Operator::CallIndirect { .. }
                        | Operator::ReturnCallIndirect { .. }
                        | Operator::CallRef { .. }
                        | Operator::ReturnCallRef { .. } => r |= UNBOUNDED,
                        o => {
                            let s = format!("{:?}", o);
                            let n = s.split(' ').next().unwrap_or("");
                            if s.contains("memarg")
                                || n.starts_with("MemoryCopy")
                                || n.starts_with("MemoryFill")
                                || n.starts_with("MemoryInit")
                                || n.starts_with("Try")
                                || n.starts_with("Throw")
                                || n.contains("Reinterpret")
                                || ((n.starts_with('F') || n.contains("F32") || n.contains("F64"))
                                    && !n.ends_with("Const"))
                            {
                                r |= ACCESS
                            }
                        }
                    }
                }
                func += 1;
            }
            _ => {}
        }
    }
    Ok(r)
}

#[no_mangle]
pub unsafe extern "C" fn check(p: *const u8, n: usize) -> u32 {
    let b = std::slice::from_raw_parts(p, n);
    match Validator::new_with_features(WasmFeatures::all()).validate_all(b) {
        Err(_) => INVALID_ANY,
        Ok(_) => {
            let d = if Validator::new().validate_all(b).is_ok() { 0 } else { NOT_DEFAULT };
            look(b).unwrap_or(INVALID_ANY) | d
        }
    }
}
