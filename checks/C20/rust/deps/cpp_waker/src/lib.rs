//! The bindings of C++'s wakers, modelled by their contract: a waker is alive from
//! when it was made or cloned until it is dropped or woken by value.
pub mod rs_std {
    #[repr(C)]
    pub struct CppWaker { pub number: usize }
}
pub mod model {
    pub type UnitPtr = *const ();
    #[derive(Clone, Copy)]
    pub struct State { pub handles: usize, pub clones: usize, pub wakes: usize, pub refs: usize, pub drops: usize }
    pub static mut WAKERS: ([State; 2], u64) = ([State { handles: 0, clones: 0, wakes: 0, refs: 0, drops: 0 }; 2], 0x5EED0020);
    /// A clone is another C++ object.
    pub static mut ELSEWHERE: (bool, u64) = (false, 0x5EED0021);
    pub static mut CPP: (bool, u64) = (false, 0x5EED0022);
    pub static FIRST: (rs_std::CppWaker, rs_std::CppWaker) = (rs_std::CppWaker { number: 0 }, rs_std::CppWaker { number: 1 });
    use super::rs_std;
    fn at(p: UnitPtr, cpp: bool) -> usize {
        let i = unsafe { (*(p as *const rs_std::CppWaker)).number };
        assert!(p as usize == (if i == 0 { &FIRST.0 } else { &FIRST.1 }) as *const _ as usize, "the waker that C++ gave");
        assert!(unsafe { CPP.0 } == cpp, "the functions of this kind of waker");
        assert!(unsafe { WAKERS.0[i].handles } > 0, "a waker is not used after it was dropped or woken");
        i
    }
    pub fn of(i: usize) -> State { unsafe { WAKERS.0[i] } }
    fn clone(p: UnitPtr, cpp: bool) -> UnitPtr { unsafe {
        let i = at(p, cpp);
        WAKERS.0[i].clones += 1;
        let j = if ELSEWHERE.0 { 1 - i } else { i };
        WAKERS.0[j].handles += 1;
        (if j == 0 { &FIRST.0 } else { &FIRST.1 }) as *const _ as UnitPtr
    } }
    fn wake(p: UnitPtr, cpp: bool) { unsafe { let i = at(p, cpp); WAKERS.0[i].wakes += 1; WAKERS.0[i].handles -= 1; } }
    fn by_ref(p: UnitPtr, cpp: bool) { unsafe { let i = at(p, cpp); WAKERS.0[i].refs += 1; } }
    fn gone(p: UnitPtr, cpp: bool) { unsafe { let i = at(p, cpp); WAKERS.0[i].drops += 1; WAKERS.0[i].handles -= 1; } }
    pub unsafe fn rs_std_waker_clone(p: UnitPtr) -> UnitPtr { clone(p, false) }
    pub unsafe fn rs_std_waker_wake_and_destroy(p: UnitPtr) { wake(p, false) }
    pub unsafe fn rs_std_waker_wake_by_ref(p: UnitPtr) { by_ref(p, false) }
    pub unsafe fn rs_std_waker_drop(p: UnitPtr) { gone(p, false) }
    pub unsafe fn rs_std_cpp_waker_clone(p: UnitPtr) -> UnitPtr { clone(p, true) }
    pub unsafe fn rs_std_cpp_waker_wake_and_destroy(p: UnitPtr) { wake(p, true) }
    pub unsafe fn rs_std_cpp_waker_wake_by_ref(p: UnitPtr) { by_ref(p, true) }
    pub unsafe fn rs_std_cpp_waker_drop(p: UnitPtr) { gone(p, true) }
}
