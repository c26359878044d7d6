//! Heap and CPU meter of the calling thread.
use std::{
	alloc::{GlobalAlloc, Layout, System},
	cell::Cell,
};

thread_local! {
	static LIVE: Cell<i64> = const { Cell::new(0) };
	static PEAK: Cell<i64> = const { Cell::new(0) };
	static TOTAL: Cell<u64> = const { Cell::new(0) };
}

pub struct Meter;

fn add(n: i64) {
	if n > 0 {
		let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
	}
	let _ = LIVE.try_with(|l| {
		let v = l.get() + n;
		l.set(v);
		let _ = PEAK.try_with(|p| {
			if v > p.get() {
				p.set(v)
			}
		});
	});
}

unsafe impl GlobalAlloc for Meter {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		add(l.size() as i64);
		System.alloc(l)
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		add(l.size() as i64);
		System.alloc_zeroed(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		add(-(l.size() as i64));
		System.dealloc(p, l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		add(n as i64);
		let r = System.realloc(p, l, n);
		add(-(l.size() as i64));
		r
	}
}

fn cpu_ns() -> u64 {
	std::fs::read_to_string("/proc/thread-self/schedstat")
		.ok()
		.and_then(|s| s.split_whitespace().next().and_then(|x| x.parse().ok()))
		.unwrap_or(0)
}

/// Result, peak of bytes allocated on top of what was live before, bytes allocated altogether, thread CPU time in ns.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64, u64, u64) {
	let before = LIVE.with(|l| l.get());
	PEAK.with(|p| p.set(before));
	let t0 = cpu_ns();
	let a0 = TOTAL.with(|t| t.get());
	let out = f();
	let a1 = TOTAL.with(|t| t.get());
	let t1 = cpu_ns();
	let peak = PEAK.with(|p| p.get()) - before;
	(out, peak.max(0) as u64, a1 - a0, t1.saturating_sub(t0))
}
