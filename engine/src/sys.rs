use std::ffi::c_void;
extern "C" {
    pub fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
    pub fn fork() -> i32;
    pub fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn getpid() -> i32;
    pub fn usleep(us: u32) -> i32;
    pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
pub const PROT_RW: i32 = 3;
pub const MAP_SHARED: i32 = 1;
pub const MAP_PRIVATE: i32 = 2;
pub const MAP_FIXED: i32 = 0x10;
pub const MAP_ANON: i32 = 0x20;
pub const MAP_NORESERVE: i32 = 0x4000;
