import os
from vp.kani import run_kani
from vp.cpp import run_cpp
HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "proof"
CHECKER_CMD = "bin/check C01 (cargo kani on checks/C01/rust; clang++ -O0 | opt | ir2c | cbmc on checks/C01/cpp)"
FUNCTIONS = ["bridge_rust::CrubitAbi::{encode,decode} of TransmuteAbi, OptionAbi, ResultAbi, TupleAbi, BoxedAbi, PairAbi",
             "bridge_rust::Encoder/Decoder::{new,encode,decode,advance}", "bridge_rust::unstable_encode!/unstable_return!",
             "crubit::{TransmuteAbi,TupleAbi,PairAbi,OptionalAbi,ResultAbi,BoxedAbi,...}::{Encode,Decode}, crubit::Encoder, crubit::Decoder, crubit::internal::{Encode,Decode}"]
TRUSTED = ["Kani 0.68.0 / CBMC", "clang 18 + lib/vp/ir2c.py + CBMC 6.11.0", "lib/cpp/prelude.c models of operator new/delete/memcpy"]
ASSUMPTIONS = ["payload types are representative instances (u8,u16,u32,u64,pointers, zero-sized, padded structs, drop-counting and non-trivial types, nested compositions); the contract of a composition refers only to its components' contracts",
               "the Rust and the C++ half are related through the same byte-level layout specification, not by running one against the other"]


def run_check(tier, work):
    return (run_kani(os.path.join(HERE, "rust"), os.path.join(work, "rust"))
            + run_cpp(os.path.join(HERE, "cpp/bridge.cc"), os.path.join(work, "cpp"), unwind=60))
