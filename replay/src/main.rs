//! Runs one contract harness natively, against the real code.
//!   verif-replay replay <harness> <file-with-bytes>
//!   verif-replay random <harness> <seconds> <seed> <out-file>
//! exit 0: harness passed / nothing found, 1: an obligation failed (message on
//! stdout), 3: the input is outside the precondition.
use rav1e::verif::{run, shim};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn one(name: &str) -> Result<(), Option<String>> {
  match catch_unwind(AssertUnwindSafe(|| run(name))) {
    Ok(()) => Ok(()),
    Err(e) => {
      if e.is::<shim::Rejected>() {
        return Err(None);
      }
      let m = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into());
      Err(Some(m))
    }
  }
}

fn main() {
  std::panic::set_hook(Box::new(|i| {
    if !i.payload().is::<shim::Rejected>() {
      eprintln!("{i}");
    }
  }));
  let a: Vec<String> = std::env::args().collect();
  match a[1].as_str() {
    "replay" => {
      let txt = std::fs::read_to_string(&a[3]).unwrap();
      let b: Vec<u8> =
        txt.split_whitespace().filter_map(|x| x.parse().ok()).collect();
      shim::load(b, 0);
      match one(&a[2]) {
        Ok(()) => println!("replay: obligation holds on this input"),
        Err(None) => {
          println!("replay: input outside the precondition");
          std::process::exit(3)
        }
        Err(Some(m)) => {
          println!("replay: FAILED: {m}");
          std::process::exit(1)
        }
      }
    }
    "random" => {
      let secs: f64 = a[3].parse().unwrap();
      let mut seed: u64 = a[4].parse::<u64>().unwrap().wrapping_mul(2) | 1;
      let t = std::time::Instant::now();
      let (mut n, mut ok) = (0u64, 0u64);
      while t.elapsed().as_secs_f64() < secs {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
        shim::load(Vec::new(), seed);
        n += 1;
        match one(&a[2]) {
          Ok(()) => ok += 1,
          Err(None) => {}
          Err(Some(m)) => {
            let b: Vec<String> =
              shim::taken().iter().map(|x| x.to_string()).collect();
            std::fs::write(&a[5], b.join(" ")).unwrap();
            println!("random: FAILED after {n}: {m}");
            std::process::exit(1)
          }
        }
      }
      println!("random: {n} tried, {ok} inside the precondition, none failed");
    }
    _ => std::process::exit(2),
  }
}
