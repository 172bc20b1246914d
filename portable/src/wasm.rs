//! No operating system, no standard library: an allocator which never gives anything back until the
//! case ends, and a panic which stops the machine.
use core::alloc::{GlobalAlloc, Layout};
use core::ptr::addr_of_mut;

struct Bump;
static mut START: usize = 0;
static mut AT: usize = 0;
static mut END: usize = 0;
static mut TEXT: (usize, usize) = (0, 0);

unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = (AT + l.align() - 1) & !(l.align() - 1);
        let Some(e) = p.checked_add(l.size()) else { return core::ptr::null_mut() };
        if e > END {
            let pages = l.size() / 65536 + 16;
            let at = core::arch::wasm32::memory_grow(0, pages);
            if at == usize::MAX {
                return core::ptr::null_mut();
            }
            if at * 65536 != END || START == 0 {
                AT = at * 65536;
                START = AT;
            }
            END = (at + pages) * 65536;
            return self.alloc(l);
        }
        AT = e;
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if p as usize + l.size() == AT {
            AT = p as usize;
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if p as usize + l.size() == AT && p as usize + n <= END {
            AT = p as usize + n;
            return p;
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            core::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        }
        q
    }
}
#[global_allocator]
static A: Bump = Bump;

#[panic_handler]
fn stop(_: &core::panic::PanicInfo) -> ! {
    core::arch::wasm32::unreachable()
}

#[no_mangle]
pub extern "C" fn case(family: u32, seed: u64, index: u64, keep: u32) -> u64 {
    unsafe { AT = START };
    let log = crate::run(family as usize, seed, index, keep != 0);
    let d = log.digest();
    if let Some(t) = log.text {
        unsafe { *addr_of_mut!(TEXT) = (t.as_ptr() as usize, t.len()) };
        core::mem::forget(t);
    }
    d
}
#[no_mangle]
pub extern "C" fn families() -> u32 {
    crate::FAMILIES.len() as u32
}
#[no_mangle]
pub extern "C" fn family_name(k: u32) -> u32 {
    let n = crate::FAMILIES[k as usize].0;
    unsafe { *addr_of_mut!(TEXT) = (n.as_ptr() as usize, n.len()) };
    0
}
#[no_mangle]
pub extern "C" fn text_at() -> u32 {
    unsafe { TEXT.0 as u32 }
}
#[no_mangle]
pub extern "C" fn text_len() -> u32 {
    unsafe { TEXT.1 as u32 }
}
