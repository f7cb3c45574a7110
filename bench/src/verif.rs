//! C22: the whole benchmark program.
#![allow(static_mut_refs)]
use crate::plots::inner::{rt::*, *};
use mbqc_scheduling::interface::{Path, ANSWER, CALLS};
use std::time::Duration;

extern "C" {
    fn symx_args(n: u64, v: *const *const u8);
}
fn arguments(a: &[&str]) {
    let mut v: Vec<*const u8> =
        a.iter().map(|s| Box::leak(format!("{s}\0").into_bytes().into_boxed_slice()).as_ptr()).collect();
    let n = v.len() as u64;
    v.push(std::ptr::null());
    unsafe { symx_args(n, Box::leak(v.into_boxed_slice()).as_ptr()) }
}

/// different for every call; any of some for one of them
fn costs(i: usize) -> Vec<(usize, usize)> {
    if param(7) > 0 && i as u64 == (param(7) - 1) * 8 + concretize(bits(3, 0, 3)) {
        return [vec![(3, 5)], vec![(1, 2), (9, 1)], vec![(2, 70), (4, 60), (5, 50)], vec![(1000, 1)]]
            [concretize(bits(3, 1, 2)) as usize]
            .clone();
    }
    let x = |k: usize| (i * 7 + k * 3) * (i + k + 1) % 101 + 1;
    (0..1 + i % 3).map(|k| (x(k), x(k + 3))).collect()
}
fn answer(i: usize) -> Vec<Path> {
    made(&costs(i))
}

fn floats(v: &serde_json::Value) -> Vec<f64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap_or(f64::NAN)).collect()).unwrap_or_default()
}

/// 1: 0 node, 1 density; 2 number of nodes (for density); 3, 4, 5, 6 the densities and their types,
/// 7: which eight calls have free answers, and 1 (0 none)
fn program() {
    unsafe {
        CALLS.clear();
        ANSWER = Some(answer);
    }
    let node = param(1) == 0;
    let number = |k: u64| ["0.5", "0.75", "1", "0.25", "0", "11", "22", "7"][k as usize];
    let kind = |k: u64| ["constant", "reziprocal_linear", "reziprocal_square_root"][k as usize];
    let n = param(2).to_string();
    if node {
        arguments(&["results", "node", number(param(3)), number(param(5)), kind(param(4)), kind(param(6))]);
    } else {
        arguments(&["results", "density", &n, number(param(3))]);
    }
    crate::run(crate::cli::parse());
    let name = if node {
        let f = |k: u64| number(k).parse::<f64>().unwrap();
        let s = |d: u64, t: u64| format!("{}:{:?}", kind(t), f(d));
        format!("output/node-{}_{}.json", s(param(3), param(4)), s(param(5), param(6)))
    } else {
        format!("output/density-numnodes:{n}_numdensities:21_density:{}.json", number(param(3)))
    };
    let Ok(text) = std::fs::read_to_string(&name) else { return check(false, 70) };
    let Ok(j) = serde_json::from_str::<serde_json::Value>(&text) else { return check(false, 71) };
    check(j["num_average"].as_u64() == Some(crate::NUM_AVERAGE as u64), 72);
    let factor = |k: u64| number(k).parse::<f64>().ok();
    if node {
        check(j["edge_density"][kind(param(4))].as_f64() == factor(param(3)), 73);
        check(j["correction_density"][kind(param(6))].as_f64() == factor(param(5)), 74);
    } else {
        check(j["size"].as_u64() == Some(param(2)), 73);
        check(j["edge_density_multiplier"].as_f64() == factor(param(3)), 74);
    }
    // the points of the sweep
    let points: Vec<(usize, bool)> = if node {
        check(j["max_size"].as_u64() == Some(45), 75);
        (2..=45).map(|n| (n, n <= 20)).collect()
    } else {
        check(j["num_density"].as_u64() == Some(21), 75);
        (1..=21).map(|_| (param(2) as usize, false)).collect()
    };
    let results: Vec<Vec<f64>> = j["results"].as_array().map(|a| a.iter().map(floats).collect()).unwrap_or_default();
    check(results.len() == if node { 16 } else { 8 }, 76);
    let times = j["time_results"].as_array().map_or(0, |a| a.len());
    check(times == points.len(), 77);
    let calls = unsafe { &CALLS };
    let mut at = 0;
    let mut total = Duration::default();
    let (mut edges, mut related) = (vec![], vec![]);
    let (mut graphs, mut orders) = (vec![], vec![]);
    for (p, &(n, exact)) in points.iter().enumerate() {
        let each = 2 + exact as usize;
        let c = &calls[at..(at + each * crate::NUM_AVERAGE).min(calls.len())];
        check_calls(c, n, None, exact, 30);
        let columns = [(Role::Time, false), (Role::Approximate, true), (Role::Exact, false), (Role::Exact, true)];
        for i in 0..if exact { 8 } else { 4 } {
            let (r, last) = columns[i / 2];
            let x: Vec<usize> = (0..c.len())
                .filter(|k| role(&c[*k]) == r)
                .map(|k| {
                    let c = costs(at + k);
                    let p = if last { c[c.len() - 1] } else { c[0] };
                    if i % 2 == 1 { p.1 } else { p.0 }
                })
                .collect();
            let (mean, deviation) = statistics(&x);
            check(results[2 * i].get(p).is_some_and(|v| close(*v, mean)), 78);
            check(results[2 * i + 1].get(p).is_some_and(|v| close(*v, deviation)), 79);
        }
        for c in c {
            check(role(c) == Role::Time || Some(c.nthreads as u64) == j["ncpus"].as_u64(), 89);
            if role(c) == Role::Approximate {
                match c.timeout {
                    Some(t) => {
                        check(!t.is_zero(), 91);
                        total += t
                    },
                    None => check(false, 80),
                }
                graphs.push(&c.spacial);
                orders.push(&c.order);
                edges.push(check_graph(&c.spacial, n, 35));
                related.push(check_order(&c.order, n, 40));
            }
        }
        at += c.len();
    }
    check(at == calls.len(), 81);
    // all of them together end in time
    check(total <= Duration::from_secs(3600 * j["walltime"].as_u64().unwrap_or(0)), 82);
    check(total > Duration::from_secs(3600), 83);
    // the densities that are none or all
    let densities = |p: usize, n: usize| match node {
        true => (meant(param(4), factor(param(3)).unwrap(), n), meant(param(6), factor(param(5)).unwrap(), n)),
        _ => (factor(param(3)).unwrap() / 22., (p + 1) as f64 / 22.),
    };
    for (p, &(n, _)) in points.iter().enumerate() {
        let (d, c) = densities(p, n);
        for k in crate::NUM_AVERAGE * p..crate::NUM_AVERAGE * (p + 1) {
            check(d != 0. || edges[k] == 0, 84);
            check(d != 1. || edges[k] == n * (n - 1) / 2, 85);
            check(c != 0. || related[k] == 0, 86);
            check(c != 1. || related[k] == n * (n - 1) / 2, 87);
        }
    }
    // each of them is another one, if there are many
    for (p, &(n, _)) in points.iter().enumerate() {
        let (d, c) = densities(p, n);
        for k in crate::NUM_AVERAGE * p + 1..crate::NUM_AVERAGE * (p + 1) {
            check(n < 15 || d < 0.2 || d > 0.8 || graphs[k] != graphs[k - 1], 92);
            check(n < 15 || c < 0.2 || c > 0.8 || orders[k] != orders[k - 1], 93);
        }
    }
    // and their seeds
    let mut seeds: Vec<u64> = calls.iter().filter_map(|c| c.probabilistic.as_ref()?.1).collect();
    let number = seeds.len();
    seeds.sort();
    seeds.dedup();
    check(seeds.len() == number, 90);
    // the seed in the file gives these problems again
    let pair = |t: u64, d: u64, by: f64| (t, factor(d).unwrap() / by);
    let (edge, correction) = match node {
        true => (pair(param(4), param(3), 1.), pair(param(6), param(5), 1.)),
        _ => (pair(0, param(3), 22.), (0, 1. / 22.)),
    };
    #[cfg(feature = "inner")]
    check_seed(j["seed"].as_u64().unwrap_or(0), points[0].0, edge, correction, 88);
    out(1, calls.len() as u64);
    reach(1);
}

/// 0 what to do (3 the program)
#[no_mangle]
pub extern "C" fn h_bench() {
    #[cfg(feature = "inner")]
    match param(0) {
        0 => return sampled(),
        1 => return densities(),
        2 => return one_point(),
        4 => return for_itself(),
        _ => (),
    }
    program()
}
