//! Files, and the command line.
use crate::{gen::*, job, oracle::*, rt::*};
use mbqc_scheduling::{
    interface::{self, Path},
    probabilistic::AcceptFunc,
};
use std::{fs::File, time::Duration};

const FORMATS: [&str; 6] =
    ["serde_json", "bincode", "json", "", "Bincode", "serde_json "];

fn dir() -> &'static str {
    "scratch"
}

pub fn write<T: serde::Serialize>(name: &str, format: u64, v: &T) {
    let f = File::create(name).unwrap();
    if format == 0 {
        serde_json::to_writer(f, v).unwrap()
    } else {
        bincode::serialize_into(f, v).unwrap()
    }
}

pub fn read(name: &str, format: u64) -> Option<Vec<Path>> {
    let f = File::open(name).ok()?;
    if format == 0 {
        serde_json::from_reader(f).ok()
    } else {
        bincode::deserialize_from(f).ok()
    }
}

/// From files to files: the same as `run` on the deserialised values.
/// 17 format of the graph, 18 of the dependencies, 19 of the result,
/// 20: 0 output in an existing directory, 1 in a new one, 2 input missing, 3 input broken
#[no_mangle]
pub extern "C" fn h_serial() {
    let mut p = job();
    concrete_graph(&mut p);
    let (f1, f2, f3) = (param(17), param(18), param(19));
    let known = f1 < 2 && f2 < 2 && f3 < 2;
    mkdir(dir());
    let g = "scratch/graph";
    let d = "scratch/deps";
    let o = if param(20) == 1 { "scratch/new/dir/paths" } else { "scratch/paths" };
    write(g, f1, &p.space);
    write(d, f2, &p.order);
    if param(20) == 3 {
        // a broken file
        use std::io::Write;
        let mut f = File::create(d).unwrap();
        f.write_all(if f2 == 0 { b"[[[0,[]],[1,[0" } else { b"\x01\x00\x00" }).unwrap();
    }
    let g2 = if param(20) == 2 { "scratch/no" } else { g };
    let opt = |i: usize| if param(i) == 0 { None } else { Some(param(i) - 1) };
    let r = interface::run_serialized(
        (g2, FORMATS[f1 as usize]),
        (d, FORMATS[f2 as usize]),
        param(7) != 0,
        opt(10).map(Duration::from_millis),
        param(8) as u16,
        opt(9).map(|b| b as u32),
        crate::accept(param(11), param(12)),
        (o, FORMATS[f3 as usize]),
    );
    if !known || param(20) >= 2 {
        check(r.is_err(), 1);
        if !known && param(20) < 2 {
            // the error says which format
            let text = match r {
                Err(e) => e.to_string(),
                Ok(()) => String::new(),
            };
            let bad = [f1, f2, f3].into_iter().find(|f| *f >= 2).unwrap();
            check(text.contains(FORMATS[bad as usize]), 2);
        }
        reach(2);
        return;
    }
    check(r.is_ok(), 3);
    let want = interface::run(
        &p.space,
        &p.order,
        param(7) != 0,
        opt(10).map(Duration::from_millis),
        param(8) as u16,
        opt(9).map(|b| b as u32),
        crate::accept(param(11), param(12)).map(|a| (a, None)),
    );
    merge(false);
    match read(o, f3) {
        Some(got) => {
            crate::same(&got, &want, 4);
            for path in got.iter() {
                check_valid(&p, &path.steps, 5);
            }
            // overwriting what is there, with something longer or shorter
            let other = param(7) == 0;
            let r = interface::run_serialized(
                (g, FORMATS[f1 as usize]),
                (d, FORMATS[f2 as usize]),
                other,
                None,
                1,
                None,
                None::<AcceptFunc>,
                (o, FORMATS[f3 as usize]),
            );
            check(r.is_ok(), 6);
            let want = interface::run(&p.space, &p.order, other, None, 1, None, None);
            match read(o, f3) {
                Some(got) => crate::same(&got, &want, 7),
                None => check(false, 7),
            }
        },
        None => check(false, 4),
    }
    crate::observe(&want);
    reach(1);
}

pub fn mkdir(d: &str) {
    let _ = std::fs::create_dir_all(d);
}
