/// Registry of the Rust objects the foreign side can own: who is alive, was anybody dropped
/// twice or used after its end.
pub mod track {
    use std::sync::Mutex;
    pub const MAGIC: u64 = 0x5AFE_0B1E_C7A1_1FE5;
    pub struct Reg {
        pub alive: Vec<bool>,
        pub errors: Vec<String>,
    }
    pub static REG: Mutex<Reg> = Mutex::new(Reg { alive: Vec::new(), errors: Vec::new() });
    pub fn reg() -> std::sync::MutexGuard<'static, Reg> {
        REG.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub struct Core {
        magic: u64,
        pub id: u32,
        pub val: i32,
    }
    impl Core {
        pub fn new(val: i32) -> Core {
            let mut r = reg();
            let id = r.alive.len() as u32;
            r.alive.push(true);
            Core { magic: MAGIC, id, val }
        }
        pub fn touch(&self, what: &str) {
            if self.magic != MAGIC {
                let m = format!("{what}: object is not alive (bad magic)");
                reg().errors.push(m);
                return;
            }
            let mut r = reg();
            if !r.alive.get(self.id as usize).copied().unwrap_or(false) {
                let m = format!("{what}: object {} used after its end", self.id);
                r.errors.push(m);
            }
        }
        pub fn get(&self) -> i32 {
            self.touch("get");
            self.val
        }
        pub fn set(&mut self, v: i32) {
            self.touch("set");
            self.val = v;
        }
    }
    impl Clone for Core {
        fn clone(&self) -> Core {
            self.touch("clone");
            Core::new(self.val)
        }
    }
    impl Drop for Core {
        fn drop(&mut self) {
            self.touch("drop");
            if self.magic == MAGIC {
                let mut r = reg();
                let id = self.id as usize;
                if id < r.alive.len() {
                    r.alive[id] = false;
                }
            }
            unsafe { std::ptr::write_volatile(&mut self.magic, 0xDEAD) };
        }
    }
}

#[no_mangle]
pub extern "C" fn trk_reset() {
    let mut r = track::reg();
    r.alive.clear();
    r.alive.reserve(4096);
    r.errors.clear();
}
#[no_mangle]
pub extern "C" fn trk_born() -> u32 {
    track::reg().alive.len() as u32
}
#[no_mangle]
pub extern "C" fn trk_live() -> u64 {
    track::reg().alive.iter().enumerate().fold(0u64, |m, (i, a)| if *a { m | (1u64 << (i % 64)) } else { m })
}
/// copies the first error text into buf, returns the number of errors
#[no_mangle]
pub unsafe extern "C" fn trk_errors(buf: *mut u8, len: usize) -> u32 {
    let r = track::reg();
    if let Some(e) = r.errors.first() {
        let b = e.as_bytes();
        let n = b.len().min(len - 1);
        std::ptr::copy_nonoverlapping(b.as_ptr(), buf, n);
        *buf.add(n) = 0;
    }
    r.errors.len() as u32
}
