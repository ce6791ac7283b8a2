use std::sync::atomic::Ordering::SeqCst;
use vh::rt::native::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let entry = a[1].clone();
    // input: numbers separated by white space: nparams params.. then (kind value)*
    let txt = std::fs::read_to_string(&a[2]).unwrap();
    let mut it = txt.split_whitespace();
    let np: usize = it.next().unwrap().parse().unwrap();
    for i in 0..np {
        unsafe { PARAMS[i] = it.next().unwrap().parse().unwrap() }
    }
    let mut n = 0;
    while let Some(k) = it.next() {
        unsafe { INPUTS[n] = (k.as_bytes()[0], it.next().unwrap().parse().unwrap()) }
        n += 1;
    }
    NIN.store(n, SeqCst);
    drop(txt);
    let f = vh::ENTRIES.iter().flat_map(|l| l.iter()).find(|x| x.0 == entry).expect("entry").1;
    std::panic::set_hook(Box::new(|_| {}));
    let _ = std::panic::catch_unwind(|| panic!("warm up"));
    // a call that must block is observed as one that is still waiting after a while
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut waited = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(50));
            let e = EPOCH.load(SeqCst);
            // the main thread is asleep, not just slow
            let asleep = std::fs::read_to_string("/proc/self/stat").map_or(true, |s| s.rsplit(')').next().map_or(true, |r| r.trim_start().starts_with('S')));
            if EXPECT_BLOCK.load(SeqCst) && e == last && asleep {
                waited += 1;
                if waited >= 12 {
                    report("blocked")
                }
            } else {
                waited = 0;
                last = e;
            }
        }
    });
    std::thread::sleep(std::time::Duration::from_millis(1));
    let before = live();
    let r = std::panic::catch_unwind(|| f());
    if let Err(e) = r {
        let s = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
        println!("PANIC {}", s);
        report("panic")
    }
    let after = live();
    if !NOLEAK.load(SeqCst) && after != before {
        println!("LEAK {}", after - before);
        report("leak")
    }
    report("ok")
}
