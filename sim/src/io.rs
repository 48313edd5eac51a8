//! Files, clock and exit for the processes that execute runs: the operating system's, or, in the 32-bit build
//! (WebAssembly), what the host offers.

#[cfg(not(target_arch = "wasm32"))]
mod imp {
    use std::io::Write;
    use std::path::Path;
    use std::time::Instant;

    pub fn read(p: &Path) -> Option<Vec<u8>> {
        std::fs::read(p).ok()
    }
    pub fn write(p: &Path, b: &[u8]) {
        let _ = std::fs::write(p, b);
    }
    pub fn exit(code: i32) -> ! {
        std::process::exit(code)
    }
    /// Something that can be added to.
    pub struct Log(std::fs::File);
    impl Log {
        pub fn create(p: &Path) -> Option<Log> {
            std::fs::File::create(p).ok().map(Log)
        }
        pub fn add(&mut self, s: &str) {
            let _ = self.0.write_all(s.as_bytes());
        }
        /// Overwrite from the start.
        pub fn put(&mut self, b: &[u8]) {
            use std::os::unix::fs::FileExt;
            let _ = self.0.write_all_at(b, 0);
        }
    }
    pub struct Clock(Instant);
    impl Clock {
        pub fn start() -> Clock {
            Clock(Instant::now())
        }
        pub fn secs(&self) -> f64 {
            self.0.elapsed().as_secs_f64()
        }
    }
    pub fn on_own_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
        std::thread::Builder::new().stack_size(64 << 20).spawn(f).expect("spawn run thread").join().ok()
    }
}

#[cfg(target_arch = "wasm32")]
mod imp {
    use std::path::Path;

    #[link(wasm_import_module = "host")]
    extern "C" {
        /// Length of the file, or -1; it is kept for `h_take`.
        fn h_read(p: *const u8, n: usize) -> i32;
        fn h_take(to: *mut u8);
        /// how: 0 replaces the file, 1 adds to it.
        fn h_write(p: *const u8, n: usize, d: *const u8, m: usize, how: u32);
        fn h_exit(code: i32);
        fn h_now() -> f64;
    }
    fn name(p: &Path) -> &[u8] {
        p.to_str().unwrap_or("").as_bytes()
    }
    pub fn read(p: &Path) -> Option<Vec<u8>> {
        let p = name(p);
        let n = unsafe { h_read(p.as_ptr(), p.len()) };
        if n < 0 {
            return None;
        }
        let mut v = vec![0; n as usize];
        unsafe { h_take(v.as_mut_ptr()) };
        Some(v)
    }
    fn put(p: &Path, b: &[u8], how: u32) {
        let p = name(p);
        unsafe { h_write(p.as_ptr(), p.len(), b.as_ptr(), b.len(), how) }
    }
    pub fn write(p: &Path, b: &[u8]) {
        put(p, b, 0)
    }
    pub fn exit(code: i32) -> ! {
        unsafe { h_exit(code) };
        unreachable!()
    }
    pub struct Log(std::path::PathBuf);
    impl Log {
        pub fn create(p: &Path) -> Option<Log> {
            put(p, b"", 0);
            Some(Log(p.into()))
        }
        pub fn add(&mut self, s: &str) {
            put(&self.0, s.as_bytes(), 1)
        }
        pub fn put(&mut self, b: &[u8]) {
            put(&self.0, b, 0)
        }
    }
    pub struct Clock(f64);
    impl Clock {
        pub fn start() -> Clock {
            Clock(unsafe { h_now() })
        }
        pub fn secs(&self) -> f64 {
            (unsafe { h_now() }) - self.0
        }
    }
    /// There are no threads here; what a thread would start without is put back by hand.
    pub fn on_own_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
        crate::visit::MSG.with(|m| m.borrow_mut().clear());
        crate::tracked::reset();
        crate::sim::LAST_PANIC.with(|l| *l.borrow_mut() = None);
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
    }

    /// The host puts a command line here, one word per line.
    #[no_mangle]
    pub extern "C" fn sim_buf(n: usize) -> *mut u8 {
        Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
    }
    #[no_mangle]
    pub unsafe extern "C" fn sim_cmd(p: *const u8, n: usize) -> i32 {
        let s = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
        crate::run(s.split('\n').map(|x| x.to_string()).collect())
    }
}
pub use imp::*;
