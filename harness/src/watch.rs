//! An allocator that notes what is in a watched buffer when it is released.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

const N: usize = 32;
const MAX: usize = 4096;
#[derive(Clone, Copy)]
struct Slot {
    addr: usize,
    len: usize,
    times: usize,
    data: [u8; MAX],
}
thread_local! {
    static COUNT: Cell<usize> = const { Cell::new(0) };
    static SLOTS: UnsafeCell<[Slot; N]> = const { UnsafeCell::new([Slot { addr: 0, len: 0, times: 0, data: [0; MAX] }; N]) };
}
pub struct Watching;
fn released(p: *mut u8) {
    let n = COUNT.with(|c| c.get());
    if n == 0 {
        return;
    }
    SLOTS.with(|s| unsafe {
        let s = &mut *s.get();
        for x in s.iter_mut().take(n) {
            if x.addr == p as usize && x.times == 0 {
                for i in 0..x.len {
                    x.data[i] = std::ptr::read_volatile(p.add(i));
                }
                x.times = 1;
            }
        }
    });
}
unsafe impl GlobalAlloc for Watching {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        released(p);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        released(p);
        System.realloc(p, l, n)
    }
}
/// Runs f and returns what was found in each of the buffers when it was
/// released on this thread (none: it was not released).
pub fn during<T>(bufs: &[(usize, usize)], f: impl FnOnce() -> T) -> (T, Vec<Vec<Vec<u8>>>) {
    SLOTS.with(|s| unsafe {
        let s = &mut *s.get();
        for (i, (a, l)) in bufs.iter().take(N).enumerate() {
            s[i].addr = *a;
            s[i].len = (*l).min(MAX);
            s[i].times = 0;
        }
    });
    COUNT.with(|c| c.set(bufs.len().min(N)));
    let r = f();
    COUNT.with(|c| c.set(0));
    let v = SLOTS.with(|s| unsafe {
        let s = &*s.get();
        (0..bufs.len().min(N)).map(|i| if s[i].times > 0 { vec![s[i].data[..s[i].len].to_vec()] } else { vec![] }).collect()
    });
    (r, v)
}
