import os
from vp.kani import run_kani
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C11 (cargo kani on checks/C11/rust)"
FUNCTIONS = ["lossy_formatter::LossyFormatter::{new,write_slice,write_byte,write_fill,flush}", "lossy_formatter::incomplete_utf8::IncompleteUtf8::{is_empty,push,copy_from_slice,clear}",
             "lossy_formatter_for_bindings::crubit_LossyFormatter_{write_bytes,write_byte,write_fill,flush}", "cc_std lossy_utf8::LossyUtf8Display::fmt"]
TRUSTED = ["Kani 0.68.0 / CBMC", "core::fmt::DebugStruct::field and DebugTuple::field (only used in panic messages) are stubbed out"]
ASSUMPTIONS = ["write_byte is proved for every byte from no and from one pending byte, and for every byte from representative longer pending sequences (bounded); that the state it leaves is the specified one is observed through a flush, and through the steps that start from it",
               "write_slice, write_fill and the display of whole byte strings are bounded stand-ins: given bytes followed by one arbitrary byte, and given texts cut in two at every place"]
BOUNDS = {"b_step_from_two_a": "two pending sequences", "b_step_from_two_b": "two pending sequences", "b_step_from_three_a": "two pending sequences", "b_step_from_three_b": "one pending sequence",
          "b_slice_any": "1 byte", "b_slice_ascii_any": "A and any byte", "b_slice_lead_any": "E2 and any byte", "b_slice_bad_any": "FF and any byte", "b_slice_two": "one text, every cut",
          "b_slice_after_one": "82 and any byte after E2", "b_slice_after_three": "96 and any byte after F0 9F 92", "b_cuts_a": "one text of 5 bytes, every cut", "b_cuts_b": "one text of 5 bytes, every cut",
          "b_fill_0_0": "0 copies", "b_fill_0_2": "2 copies", "b_fill_1_0": "0 copies after 1 pending byte", "b_fill_after": "2 copies after F0 9F",
          "b_failing_slice": "1 byte", "b_failing_second": "one text, every place of the failure", "b_failing_pending": "one text, every place of the failure", "b_bindings": "one sequence of calls", "b_display_2": "2 bytes", "b_display_3": "3 bytes"}


SLOW = {"b_slice_lead_any", "b_step_from_three_a", "b_slice_after_three", "b_fill_after"}


def run_check(tier, work):
    import re
    t = os.path.join(HERE, "rust")
    names = re.findall(r"harness!\((\w+),", open(os.path.join(t, "src/lib.rs")).read())
    return run_kani(t, os.path.join(work, "rust"), extra=("-Z", "restrict-vtable"), harness_timeout="600s", bounded=BOUNDS,
                    only=["harness::" + n for n in names if tier == "thorough" or n not in SLOW],
                    stage={"src/staged.rs": ("support/cc_std_impl/lossy_utf8.rs", "", [])})
