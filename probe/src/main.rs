//! Failing-input search and bounded cross-check: runs the real code of /repo on generated inputs
//! and compares it with the reference semantics.  Never the deciding step of a proof.
//!   probe search PROPS SECONDS SEED SPECDIR OUT   -> exit 0 clean / 1 violation (OUT written)
//!   probe replay FILE SPECDIR                     -> exit 1 if the input still fails
mod cst;
mod gen;
mod peg;
mod props;
mod refm;

use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
	pub fn new(s: u64) -> Self {
		Rng(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	pub fn below(&mut self, n: usize) -> usize {
		(self.next() % n as u64) as usize
	}
}

static CUR: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));
/// holds the case being run, for a run that ends abnormally
static CURFILE: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
static BEAT: AtomicU64 = AtomicU64::new(0);
static BUSY: AtomicU64 = AtomicU64::new(0);

fn jesc(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			c if (c as u32) < 32 || (c as u32) > 126 => {
				let mut b = [0; 2];
				for u in c.encode_utf16(&mut b) {
					o.push_str(&format!("\\u{u:04x}"));
				}
			}
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn report(out: &str, prop: &str, case: &str, what: &str) -> ! {
	let s = format!("{{\"property\":{},\"case\":{},\"what\":{}}}\n", jesc(prop), jesc(case), jesc(what));
	if !out.is_empty() {
		std::fs::write(out, &s).unwrap();
	}
	print!("{s}");
	std::io::stdout().flush().unwrap();
	std::process::exit(1)
}

/// run one case against one property; panics count as violations
pub fn run_case(cx: &props::Cx, prop: &str, case: &str) -> Result<(), String> {
	{
		let mut c = CUR.lock().unwrap();
		c.0 = prop.to_owned();
		c.1 = case.to_owned();
	}
	if let Some(f) = CURFILE.get() {
		use std::os::unix::fs::FileExt;
		let _ = f.write_all_at(case.as_bytes(), 0);
		let _ = f.set_len(case.len() as u64);
	}
	BEAT.fetch_add(1, Ordering::SeqCst);
	BUSY.store(1, Ordering::SeqCst);
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::check(cx, prop, case)));
	BUSY.store(0, Ordering::SeqCst);
	match r {
		Ok(x) => x,
		Err(e) => {
			let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
			Err(format!("panic: {m}"))
		}
	}
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	std::panic::set_hook(Box::new(|_| {}));
	let (mode, out) = (a[1].clone(), if a[1] == "search" { a[6].clone() } else { String::new() });
	if !out.is_empty() {
		if let Ok(f) = std::fs::File::create(format!("{out}.cur")) {
			let _ = CURFILE.set(f);
		}
	}
	// a case that does not finish within 100 s counts as non-termination
	let o2 = out.clone();
	std::thread::spawn(move || {
		let (mut last, mut since) = (0, Instant::now());
		loop {
			std::thread::sleep(Duration::from_millis(500));
			let b = BEAT.load(Ordering::SeqCst);
			if b != last || BUSY.load(Ordering::SeqCst) == 0 {
				last = b;
				since = Instant::now();
			} else if since.elapsed() > Duration::from_secs(100) {
				let c = CUR.lock().unwrap().clone();
				report(&o2, &c.0, &c.1, "does not terminate (100 s)");
			}
		}
	});
	let h = std::thread::Builder::new()
		.stack_size(1 << 30)
		.spawn(move || {
			if mode == "replay" {
				let cx = props::Cx::new(&a[4]);
				let case = std::fs::read_to_string(&a[3]).unwrap();
				match run_case(&cx, &a[2], &case) {
					Ok(()) => {
						println!("property {} holds on this input", a[2]);
						0
					}
					Err(w) => {
						println!("property {} fails: {w}", a[2]);
						1
					}
				}
			} else {
				let props: Vec<String> = a[2].split(',').map(|s| s.to_owned()).collect();
				let secs: f64 = a[3].parse().unwrap();
				let seed: u64 = a[4].parse().unwrap();
				let cx = props::Cx::new(&a[5]);
				let mut stats = String::new();
				for p in &props {
					let t0 = Instant::now();
					let mut g = gen::Gen::new(&cx, p, seed);
					let (mut n, mut seen, mut samples) = (0u64, std::collections::HashSet::new(), vec![]);
					let budget = Duration::from_secs_f64(secs / props.len() as f64);
					while t0.elapsed() < budget {
						let Some(case) = g.next(&cx) else { break };
						n += 1;
						if seen.len() < 3_000_000 && seen.insert({
							use std::hash::{Hash, Hasher};
							let mut h = std::collections::hash_map::DefaultHasher::new();
							case.hash(&mut h);
							h.finish()
						}) && samples.len() < 5 && n % 97 == 5
						{
							samples.push(case.clone());
						}
						let t1 = Instant::now();
						let res = run_case(&cx, p, &case);
						if std::env::var("PROBE_SLOW").is_ok() && t1.elapsed().as_millis() > 20 {
							eprintln!("{:?} {}", t1.elapsed(), case.escape_debug());
						}
						if let Err(w) = res {
							let (case, w) = gen::shrink(&cx, p, case, w);
							report(&out, p, &case, &w);
						}
					}
					stats += &format!(
						"{{\"property\":{},\"evaluations\":{n},\"distinct\":{},\"seconds\":{:.1},\"samples\":[{}]}}\n",
						jesc(p),
						seen.len(),
						t0.elapsed().as_secs_f64(),
						samples.iter().map(|s| jesc(s)).collect::<Vec<_>>().join(",")
					);
				}
				print!("{stats}");
				0
			}
		})
		.unwrap();
	let rc = h.join().unwrap_or(3);
	std::process::exit(rc);
}
