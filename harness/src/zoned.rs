//! A heap which notices what should not be written.
/// Memory starts out filled with a value which no program stores, and every
/// block lies between zones which are checked when it is freed.
pub struct Zoned;
const JUNKBYTE: u8 = 0x9B;
const ZONE: usize = 64;
const ZONEBYTE: u8 = 0xC5;
unsafe impl std::alloc::GlobalAlloc for Zoned {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let z = ZONE.max(l.align());
        let p = std::alloc::System.alloc(std::alloc::Layout::from_size_align_unchecked(l.size() + 2 * z, l.align()));
        if p.is_null() { return p; }
        std::ptr::write_bytes(p, ZONEBYTE, z);
        std::ptr::write_bytes(p.add(z), JUNKBYTE, l.size());
        std::ptr::write_bytes(p.add(z + l.size()), ZONEBYTE, z);
        p.add(z)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let z = ZONE.max(l.align());
        let b = p.sub(z);
        for i in 0..z {
            if *b.add(i) != ZONEBYTE || *p.add(l.size() + i) != ZONEBYTE {
                use std::io::Write;
                let _ = std::io::stderr().write_all(b"memory next to a heap block was written\n");
                std::process::abort();
            }
        }
        std::alloc::System.dealloc(b, std::alloc::Layout::from_size_align_unchecked(l.size() + 2 * z, l.align()))
    }
}

/// A call which never returns ends the process: `beat` is to be called more often than every ten seconds.
pub static BEATS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
#[allow(dead_code)]
pub fn beat() { BEATS.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
#[allow(dead_code)]
pub fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let b = BEATS.load(std::sync::atomic::Ordering::Relaxed);
            last = if b == last.0 { (b, last.1 + 1) } else { (b, 0) };
            if last.1 > 40 { eprintln!("a call does not return"); std::process::exit(97); }
        }
    });
}
