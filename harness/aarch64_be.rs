//! Big-endian aarch64, whose core comes from the toolchain's sources: exit status bit 0 is set if NeonHash differs
//! from PortableHash for the key [1, 2, 3, 4] and one of 100 inputs, bit 1 if HighwayHasher does.
#![no_std]
#![no_main]
use core::arch::asm;
use highway::*;

#[panic_handler]
fn p(_: &core::panic::PanicInfo) -> ! {
    exit(99)
}
fn exit(c: u64) -> ! {
    unsafe { asm!("svc 0", in("x8") 93u64, in("x0") c, options(noreturn)) }
}
#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    for i in 0..n {
        core::ptr::write_volatile(d.add(i), core::ptr::read_volatile(s.add(i)))
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if (d as usize) < s as usize {
        return memcpy(d, s, n);
    }
    for i in (0..n).rev() {
        core::ptr::write_volatile(d.add(i), core::ptr::read_volatile(s.add(i)))
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    for i in 0..n {
        core::ptr::write_volatile(d.add(i), c as u8)
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    for i in 0..n {
        if core::ptr::read_volatile(a.add(i)) != core::ptr::read_volatile(b.add(i)) {
            return 1;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    for i in 0..n {
        let (x, y) = (core::ptr::read_volatile(a.add(i)), core::ptr::read_volatile(b.add(i)));
        if x != y {
            return x as i32 - y as i32;
        }
    }
    0
}
#[no_mangle]
pub extern "C" fn _start() -> ! {
    let mut d = [0u8; 100];
    for i in 0..100 {
        d[i] = (i * 3 + 1) as u8;
    }
    // a published vector: the toolchain and the emulator work
    if PortableHash::new(Key([1, 2, 3, 4])).hash64(&[255]) != 0x7858_f24d_2d79_b2b2 {
        exit(98)
    }
    let mut bad = 0;
    for n in 0..100 {
        let k = || Key([1, 2, 3, 4]);
        let a = PortableHash::new(k()).hash256(&d[..n]);
        if unsafe { NeonHash::force_new(k()) }.hash256(&d[..n]) != a {
            bad |= 1;
        }
        if HighwayHasher::new(k()).hash256(&d[..n]) != a {
            bad |= 2;
        }
    }
    exit(bad)
}
