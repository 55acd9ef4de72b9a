#[allow(dead_code)]
pub mod support {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    pub struct Rng(pub u64);
    impl Rng {
        pub fn next(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        pub fn below(&mut self, n: usize) -> usize {
            (self.next() % (n.max(1) as u64)) as usize
        }
        pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
            &v[self.below(v.len())]
        }
    }
    pub struct Rep {
        pub pid: String,
        pub thorough: bool,
        pub seed: u64,
        pub scratch: String,
        pub cases: u64,
        pub nontrivial: u64,
        pub samples: Vec<String>,
        pub fails: Vec<String>,
        pub bounds: Vec<String>,
        pub begun: std::time::Instant,
    }
    /// the case under way and when it began, and the failures so far, for the watchdog
    static NOW: std::sync::Mutex<(u64, Option<std::time::Instant>, Vec<String>)> = std::sync::Mutex::new((0, None, Vec::new()));
    const STUCK: u64 = 200;
    extern "C" {
        fn signal(sig: i32, f: usize) -> usize;
        fn _exit(c: i32) -> !;
    }
    /// the code under test ended the process (memory it cannot get, endless recursion): the case under way fails
    extern "C" fn aborted(_: i32) {
        if let Ok(g) = NOW.try_lock() {
            let seed = std::env::args().nth(3).unwrap_or_default();
            let mut out = String::new();
            for f in &g.2 { out += &format!("FAIL {f}\n"); }
            if g.1.is_some() { out += &format!("FAIL ends the process -- input: case {} of seed {seed}\nCASES {}\nDONE\n", g.0, g.0); }
            use std::io::Write;
            let mut o = std::io::stdout();
            o.write_all(out.as_bytes()).ok();
            o.flush().ok();
            unsafe { _exit(if g.1.is_some() { 0 } else { 70 }) }
        }
        // another thread is reporting
        std::thread::sleep(std::time::Duration::from_secs(5));
        unsafe { _exit(71) }
    }
    impl Rep {
        pub fn new() -> Self {
            let a: Vec<String> = std::env::args().collect();
            std::panic::set_hook(Box::new(|_| ()));
            unsafe { signal(6, aborted as *const () as usize); }
            let seed = a.get(3).cloned().unwrap_or_default();
            std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_secs(5));
                let (n, t, f) = { let g = NOW.lock().unwrap(); (g.0, g.1, g.2.clone()) };
                if t.map(|t| t.elapsed().as_secs() > STUCK).unwrap_or(false) {
                    for f in f { println!("FAIL {f}"); }
                    println!("FAIL gives no answer within {STUCK} s -- input: case {n} of seed {seed}");
                    println!("CASES {n}\nDONE");
                    std::process::exit(0);
                }
            });
            Rep {
                pid: a.get(1).cloned().unwrap_or_default(),
                thorough: a.get(2).map(|x| x == "thorough").unwrap_or(false),
                seed: a.get(3).and_then(|x| x.parse().ok()).unwrap_or(1),
                scratch: a.get(4).cloned().unwrap_or_else(|| ".".into()),
                cases: 0,
                nontrivial: 0,
                samples: vec![],
                fails: vec![],
                bounds: vec![],
                begun: std::time::Instant::now(),
            }
        }
        pub fn rng(&self, salt: u64) -> Rng {
            Rng(self.seed.wrapping_mul(0x1234567).wrapping_add(salt))
        }
        pub fn n(&self, quick: usize, thorough: usize) -> usize {
            if self.thorough { thorough } else { quick }
        }
        pub fn bound(&mut self, s: &str) {
            self.bounds.push(s.to_string());
        }
        pub fn full(&self) -> bool {
            self.fails.len() >= 12 || !self.fails.is_empty() && self.begun.elapsed().as_secs() > 60
        }
        pub fn fail(&mut self, s: String) {
            if self.fails.len() < 12 {
                let s = s.replace('\n', "\\n").replace('\r', "\\r");
                NOW.lock().unwrap().2.push(s.clone());
                self.fails.push(s);
            }
        }
        /// One case.  `f` returns Err(description of what is wrong); a panic is a failure too.
        pub fn case(&mut self, nontrivial: bool, desc: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
            if self.full() {
                return;
            }
            self.cases += 1;
            if nontrivial {
                self.nontrivial += 1;
                if self.samples.len() < 3 || (self.samples.len() < 6 && self.cases % 997 == 0) {
                    self.samples.push(desc());
                }
            }
            { let mut g = NOW.lock().unwrap(); g.0 = self.cases; g.1 = Some(std::time::Instant::now()); }
            let done = catch_unwind(AssertUnwindSafe(f));
            NOW.lock().unwrap().1 = None;
            match done {
                Ok(Ok(())) => (),
                Ok(Err(e)) => {
                    let d = desc();
                    self.fail(format!("{e} -- input: {d}"))
                }
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_else(|| "?".into());
                    let d = desc();
                    self.fail(format!("panicked: {m} -- input: {d}"))
                }
            }
        }
        pub fn finish(self) -> ! {
            for b in &self.bounds {
                println!("BOUND {b}");
            }
            for b in &self.samples {
                println!("SAMPLE {}", b.replace('\n', "\\n").replace('\r', "\\r"));
            }
            println!("CASES {}", self.cases);
            println!("NONTRIVIAL {}", self.nontrivial);
            for f in &self.fails {
                println!("FAIL {f}");
            }
            println!("DONE");
            std::process::exit(0);
        }
    }
    /// Result of a call, with a panic turned into Err.
    pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
        catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
            p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_else(|| "panic".into())
        })
    }
    /// every string of at most n characters over the alphabet
    pub fn strings(alpha: &[char], n: usize) -> Vec<String> {
        let mut o = vec![String::new()];
        let mut lo = 0;
        for _ in 0..n {
            let hi = o.len();
            for i in lo..hi {
                for c in alpha {
                    let mut s = o[i].clone();
                    s.push(*c);
                    o.push(s);
                }
            }
            lo = hi;
        }
        o
    }
}
