import os
from vp.kani import run_kani
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C10 (cargo kani on checks/C10/rust)"
FUNCTIONS = ["ffi_11::new_*", "every From impl, comparison, Hash, arithmetic and assignment operator of ffi_11::{c_char,c_char8_t,c_char16_t,c_char32_t,c_wchar_t,c_longlong,c_ulonglong}",
             "ffi_11::c_atomic_char::{new,default,deref}", "ffi_11::c_nullptr_t::default", "ffi_11::{AsFfi11Ptr,CStrExt,CastFfi11}"]
TRUSTED = ["Kani 0.68.0 / CBMC"]
ASSUMPTIONS = ["only the LP64 Linux variant (the one this target compiles) is checked; the iOS, Windows and 32-bit cfg branches are not",
               "Debug and Display of the newtypes are not under contract",
               "CStr round trip is a bounded stand-in (strings of up to 4 bytes)"]


def run_check(tier, work):
    return run_kani(os.path.join(HERE, "rust"), os.path.join(work, "rust"), extra=("-Z", "c-ffi"), bounded={"b_cstr_round_trip": "strings of up to 4 bytes"})
