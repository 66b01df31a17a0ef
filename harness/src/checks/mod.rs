use crate::case::{Case, Fail, Res};
use crate::cli::Env;
use crate::gen::Gen;
use crate::Obs;
use std::collections::{BTreeMap, HashSet};

pub mod arrays;
pub mod bytes;
pub mod mem;
pub mod parse;
pub mod system;
pub mod transforms;
pub mod words;
pub mod work;

pub trait Check {
    fn generate(&self, g: &mut Gen);
    fn eval(&self, env: &Env, c: &Case, obs: &mut Obs) -> Res;
    fn rule(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "exploration"
    }
    /// multiplies the number of generated cases
    fn boost(&self) -> usize {
        1
    }
    fn min_nontrivial(&self) -> u64 {
        100
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the reference implementations in harness/src/model.rs", "the generated executions stand for the rest"]
    }
    fn jobs(&self) -> Option<u64> {
        None
    }
    /// CPU seconds a single case may take before it counts as not terminating (usual: well under 1 s)
    fn case_cpu_limit(&self) -> u64 {
        90
    }
    fn shrinkable(&self, _c: &Case) -> bool {
        true
    }
    fn finish(&self, _c: &BTreeMap<String, u64>, _s: &BTreeMap<String, HashSet<u64>>) -> Res {
        Ok(())
    }
}

pub const IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32",
    "C33",
];

pub fn by_id(id: &str) -> Option<Box<dyn Check>> {
    Some(match id {
        "C01" => Box::new(transforms::C01),
        "C02" => Box::new(transforms::C02),
        "C03" => Box::new(transforms::C03),
        "C04" => Box::new(transforms::C04),
        "C05" => Box::new(transforms::C05),
        "C06" => Box::new(arrays::C06),
        "C07" => Box::new(arrays::C07),
        "C08" => Box::new(arrays::C08),
        "C09" => Box::new(parse::C09),
        "C10" => Box::new(parse::C10),
        "C11" => Box::new(parse::C11),
        "C12" => Box::new(parse::C12),
        "C13" => Box::new(parse::C13),
        "C14" => Box::new(bytes::C14),
        "C15" => Box::new(bytes::C15),
        "C16" => Box::new(bytes::C16),
        "C17" => Box::new(bytes::C17),
        "C18" => Box::new(words::C18),
        "C19" => Box::new(words::C19),
        "C20" => Box::new(words::C20),
        "C21" => Box::new(words::C21),
        "C22" => Box::new(words::C22),
        "C23" => Box::new(system::C23),
        "C24" => Box::new(system::C24),
        "C25" => Box::new(system::C25),
        "C26" => Box::new(mem::C26),
        "C27" => Box::new(mem::C27),
        "C28" => Box::new(bytes::C28),
        "C29" => Box::new(system::C29),
        "C30" => Box::new(system::C30),
        "C31" => Box::new(system::C31),
        "C32" => Box::new(system::C32),
        "C33" => Box::new(work::C33),
        _ => return None,
    })
}

/// turns an oracle's refusal into a violation
pub fn judge(what: &str, r: Result<(), String>) -> Res {
    r.map_err(|e| Fail::Violation(format!("{}: {}", what, e)))
}
