//! Contracts of LossyFormatter.
//!
//! Specification: a decoder for UTF-8 with substitution of maximal subparts
//! (Unicode 3.9, "U+FFFD Substitution of Maximal Subparts"), written as a state
//! machine over one byte. Its state is the pending incomplete sequence. The
//! text a LossyFormatter has written after any sequence of operations is the
//! text this machine has written for the concatenation of their bytes.
#![feature(formatting_options)]
#![allow(dead_code)]

mod staged;

#[cfg(kani)]
mod harness {
    use core::fmt::{Formatter, FormattingOptions, Write};
    use lossy_formatter::LossyFormatter;

    // Only the messages of panics use the Debug builders; their text is not modelled.
    pub fn no_struct_field<'a: 'a, 'b: 'b, 'c>(b: &'c mut core::fmt::DebugStruct<'a, 'b>, _n: &str, _v: &dyn core::fmt::Debug) -> &'c mut core::fmt::DebugStruct<'a, 'b> { b }
    pub fn no_tuple_field<'a: 'a, 'b: 'b, 'c>(b: &'c mut core::fmt::DebugTuple<'a, 'b>, _v: &dyn core::fmt::Debug) -> &'c mut core::fmt::DebugTuple<'a, 'b> { b }

    pub const CAP: usize = 16;
    /// Records the text; the write that would exceed `budget` calls fails.
    pub struct Out { pub buf: [u8; CAP], pub n: usize, pub budget: usize, pub failed: bool }
    impl Out {
        pub fn new() -> Out { Out { buf: [0; CAP], n: 0, budget: usize::MAX, failed: false } }
        fn put(&mut self, b: u8) { self.buf[self.n] = b; self.n += 1; }
        fn same(&self, o: &Out) -> bool { self.n == o.n && u128::from_ne_bytes(self.buf) == u128::from_ne_bytes(o.buf) }
    }
    impl Write for Out {
        fn write_str(&mut self, s: &str) -> core::fmt::Result {
            if self.budget == 0 { self.failed = true; return Err(core::fmt::Error); }
            self.budget -= 1;
            let b = s.as_bytes();
            let mut i = 0;
            while i < b.len() { self.put(b[i]); i += 1; }
            Ok(())
        }
    }

    /// The specification machine.
    #[derive(Clone, Copy)]
    pub struct Spec { have: [u8; 3], n: usize, need: usize, lo: u8, hi: u8 }
    impl Spec {
        pub fn new() -> Spec { Spec { have: [0; 3], n: 0, need: 0, lo: 0, hi: 0 } }
        fn replacement(o: &mut Out) { o.put(0xEF); o.put(0xBF); o.put(0xBD); }
        fn start(&mut self, b: u8, o: &mut Out) {
            let (need, lo, hi) = match b {
                0x00..=0x7F => { o.put(b); return; }
                0xC2..=0xDF => (1, 0x80, 0xBF),
                0xE0 => (2, 0xA0, 0xBF),
                0xE1..=0xEC | 0xEE..=0xEF => (2, 0x80, 0xBF),
                0xED => (2, 0x80, 0x9F),
                0xF0 => (3, 0x90, 0xBF),
                0xF1..=0xF3 => (3, 0x80, 0xBF),
                0xF4 => (3, 0x80, 0x8F),
                _ => { Self::replacement(o); return; }
            };
            self.have[0] = b; self.n = 1; self.need = need; self.lo = lo; self.hi = hi;
        }
        pub fn byte(&mut self, b: u8, o: &mut Out) {
            if self.n == 0 { return self.start(b, o); }
            if b < self.lo || b > self.hi {
                self.n = 0;
                Self::replacement(o);
                return self.start(b, o);
            }
            self.need -= 1;
            if self.need == 0 {
                if self.n >= 1 { o.put(self.have[0]); }
                if self.n >= 2 { o.put(self.have[1]); }
                if self.n >= 3 { o.put(self.have[2]); }
                o.put(b);
                self.n = 0;
            } else {
                self.have[self.n] = b; self.n += 1; self.lo = 0x80; self.hi = 0xBF;
            }
        }
        pub fn flush(&mut self, o: &mut Out) { if self.n != 0 { Self::replacement(o); self.n = 0; } }
    }

    fn with<R>(o: &mut Out, f: impl FnOnce(&mut LossyFormatter) -> R) -> R {
        let mut fm = Formatter::new(o, FormattingOptions::new());
        let mut l = LossyFormatter::new(&mut fm);
        f(&mut l)
    }
    /// `p` is a pending incomplete sequence: the machine keeps all of it.
    fn pending(p: &[u8]) -> Spec {
        let mut s = Spec::new();
        let mut o = Out::new();
        let mut i = 0;
        while i < p.len() { s.byte(p[i], &mut o); i += 1; }
        kani::assume(o.n == 0 && s.n == p.len());
        s
    }

    /// One step of write_byte from every pending sequence of K bytes, the text it
    /// writes, and the state it leaves (seen through LOOK further bytes and a flush).
    fn step<const K: usize, const LOOK: usize>() {
        let p: [u8; K] = kani::any();
        let mut s = pending(&p);
        let b: u8 = kani::any();
        let look: [u8; LOOK] = kani::any();
        let mut want = Out::new();
        s.byte(b, &mut want);
        let left = s.n;
        let mut i = 0;
        while i < LOOK { s.byte(look[i], &mut want); i += 1; }
        s.flush(&mut want);
        let mut got = Out::new();
        with(&mut got, |l| {
            let mut i = 0;
            while i < K { assert!(l.write_byte(p[i]).is_ok(), "no error is invented"); i += 1; }
            assert!(l.write_byte(b).is_ok(), "no error is invented");
            let mut i = 0;
            while i < LOOK { assert!(l.write_byte(look[i]).is_ok(), "no error is invented"); i += 1; }
            assert!(l.flush(), "no error is invented");
            assert!(l.flush(), "a second flush has nothing to write");
        });
        assert!(got.same(&want), "the text is the one of the specification machine");
        kani::cover!(left == K + 1 || K == 3, "MUST: the byte extends the sequence");
        kani::cover!(left == 0, "MUST: the byte completes or breaks the sequence");
    }
    macro_rules! harness { ($n:ident, $body:block) => {
        #[kani::proof] #[kani::unwind(6)]
        #[kani::stub(core::fmt::DebugStruct::field, no_struct_field)]
        #[kani::stub(core::fmt::DebugTuple::field, no_tuple_field)]
        fn $n() $body
    } }

    harness!(step_from_empty, { step::<0, 0>() });
    harness!(step_from_one, { step::<1, 0>() });

    /// The same from given pending sequences, for every next byte.
    fn steps<const K: usize, const M: usize>(all: [[u8; K]; M]) {
        let b: u8 = kani::any();
        let mut k = 0;
        while k < M {
            let p = all[k];
            let mut s = pending(&p);
            let mut want = Out::new();
            s.byte(b, &mut want);
            s.flush(&mut want);
            let mut got = Out::new();
            with(&mut got, |l| {
                let mut i = 0;
                while i < K { assert!(l.write_byte(p[i]).is_ok(), "no error is invented"); i += 1; }
                assert!(l.write_byte(b).is_ok(), "no error is invented");
                assert!(l.flush(), "no error is invented");
            });
            assert!(got.same(&want), "the text is the one of the specification machine");
            k += 1;
        }
    }
    harness!(b_step_from_two_a, { steps([[0xE0, 0xA0], [0xED, 0x9F]]) });
    harness!(b_step_from_two_b, { steps([[0xF0, 0x90], [0xF4, 0x8F]]) });
    harness!(b_step_from_three_a, { steps([[0xF0, 0x90, 0x80], [0xF1, 0xBF, 0xBF]]) });
    harness!(b_step_from_three_b, { steps([[0xF4, 0x8F, 0xBF]]) });

    /// write_slice of given bytes and one arbitrary byte, after a given pending sequence.
    fn slice_then<const K: usize, const N: usize>(p: [u8; K], mut d: [u8; N]) {
        d[N - 1] = kani::any();
        let mut s = pending(&p);
        let mut want = Out::new();
        let mut i = 0;
        while i < N { s.byte(d[i], &mut want); i += 1; }
        s.flush(&mut want);
        let mut got = Out::new();
        with(&mut got, |l| {
            let mut i = 0;
            while i < K { let _ = l.write_byte(p[i]); i += 1; }
            assert!(l.write_slice(&d) == N, "all bytes progress when no write fails");
            assert!(l.flush(), "no error is invented");
        });
        assert!(got.same(&want), "the text is the one of the specification machine");
    }
    harness!(b_slice_any, { slice_then([], [0]) });
    harness!(b_slice_ascii_any, { slice_then([], [0x41, 0]) });
    harness!(b_slice_lead_any, { slice_then([], [0xE2, 0]) });
    harness!(b_slice_bad_any, { slice_then([], [0xFF, 0]) });
    harness!(b_slice_two, { let d = [0xF0, 0x9F]; cuts::<2>(d, 0, 3) });
    harness!(b_slice_after_one, { slice_then([0xE2], [0x82, 0]) });
    harness!(b_slice_after_three, { slice_then([0xF0, 0x9F, 0x92], [0x96, 0]) });

    /// A given text, cut in two at every place.
    fn cuts<const N: usize>(d: [u8; N], from: usize, to: usize) {
        let mut s = Spec::new();
        let mut want = Out::new();
        let mut i = 0;
        while i < N { s.byte(d[i], &mut want); i += 1; }
        s.flush(&mut want);
        let mut cut = from;
        while cut < to {
            let mut got = Out::new();
            with(&mut got, |l| {
                assert!(l.write_slice(&d[..cut]) == cut, "all bytes progress when no write fails");
                assert!(l.write_slice(&d[cut..]) == N - cut, "all bytes progress when no write fails");
                assert!(l.flush(), "no error is invented");
            });
            assert!(got.same(&want), "the text is the one of the specification machine");
            cut += 1;
        }
    }
    harness!(b_cuts_a, { let d = [0xC3, 0xA9, 0xE2, 0x82, 0x41]; cuts(d, 0, 4); cuts(d, 4, 6) });
    harness!(b_cuts_b, { let d = [0xF0, 0x9F, 0x92, 0xFF, 0xE2]; cuts(d, 0, 4); cuts(d, 4, 6) });

    /// write_fill is write_byte repeated, for any byte and from any pending sequence.
    fn fill<const K: usize, const N: usize>() {
        let p: [u8; K] = kani::any();
        let mut s = pending(&p);
        let b: u8 = kani::any();
        let mut want = Out::new();
        let mut i = 0;
        while i < N { s.byte(b, &mut want); i += 1; }
        s.flush(&mut want);
        let mut got = Out::new();
        with(&mut got, |l| {
            let mut i = 0;
            while i < K { let _ = l.write_byte(p[i]); i += 1; }
            assert!(l.write_fill(N, b) == N, "all bytes progress when no write fails");
            assert!(l.flush(), "no error is invented");
        });
        assert!(got.same(&want), "the text is the one of the specification machine");
    }
    harness!(b_fill_0_0, { fill::<0, 0>() });
    harness!(b_fill_0_2, { fill::<0, 2>() });
    harness!(b_fill_1_0, { fill::<1, 0>() });
    harness!(b_fill_after, {
        let b: u8 = kani::any();
        let mut s = pending(&[0xF0, 0x9F]);
        let mut want = Out::new();
        s.byte(b, &mut want); s.byte(b, &mut want);
        s.flush(&mut want);
        let mut got = Out::new();
        with(&mut got, |l| {
            let _ = l.write_byte(0xF0); let _ = l.write_byte(0x9F);
            assert!(l.write_fill(2, b) == 2, "all bytes progress when no write fails");
            assert!(l.flush(), "no error is invented");
        });
        assert!(got.same(&want), "the text is the one of the specification machine");
    });

    /// A failing sink is reported, and only then is less than everything progressed.
    fn failing<const N: usize>(d: [u8; N], budget: usize) {
        let mut got = Out::new();
        got.budget = budget;
        let n = with(&mut got, |l| l.write_slice(&d));
        assert!(n <= N, "never more than the input");
        assert!((n < N) == got.failed, "a short count if and only if a write failed");
    }
    harness!(b_failing_slice, { failing([kani::any()], 0) });
    harness!(b_failing_second, { for i in 0..4 { failing([0x41, 0xFF, 0x42], i) } });
    harness!(b_failing_pending, { for i in 0..3 { failing([0xE2, 0x41], i) } });
    harness!(failing_byte, {
        let b: u8 = kani::any();
        let mut got = Out::new();
        got.budget = 0;
        let r = with(&mut got, |l| l.write_byte(b).is_err());
        assert!(r == got.failed, "write_byte reports the failure");
        let mut got = Out::new();
        got.budget = 0;
        let n = with(&mut got, |l| l.write_fill(3, b'x'));
        assert!(n == 0 && got.failed, "write_fill reports the failure");
        let mut got = Out::new();
        got.budget = 0;
        let r = with(&mut got, |l| { let _ = l.write_byte(0xE2); l.flush() });
        assert!(!r && got.failed, "flush reports the failure");
    });

    /// The entry points for C++ are the methods.
    harness!(b_bindings, {
        use lossy_formatter_for_bindings::*;
        let d: [u8; 2] = [0xE2, 0x82];
        let mut s = Spec::new();
        let mut want = Out::new();
        s.byte(d[0], &mut want); s.byte(d[1], &mut want); s.byte(b'!', &mut want); s.byte(b'!', &mut want); s.byte(d[0], &mut want);
        s.flush(&mut want);
        let mut got = Out::new();
        with(&mut got, |l| unsafe {
            assert!(crubit_LossyFormatter_write_bytes(l, core::ptr::null(), 0) == 0, "null with no bytes is allowed");
            assert!(crubit_LossyFormatter_write_bytes(l, d.as_ptr().cast(), 2) == 2, "write_bytes progresses");
            assert!(crubit_LossyFormatter_write_fill(l, 2, b'!') == 2, "write_fill progresses");
            assert!(crubit_LossyFormatter_write_byte(l, d[0]), "write_byte succeeds");
            assert!(crubit_LossyFormatter_flush(l), "flush succeeds");
        });
        assert!(got.same(&want), "the text is the one of the specification machine");
    });

    /// LossyUtf8Display prints its bytes like a LossyFormatter that is flushed at the end.
    fn display<const N: usize>() {
        let d: [u8; N] = kani::any();
        let mut s = Spec::new();
        let mut want = Out::new();
        let mut i = 0;
        while i < N { s.byte(d[i], &mut want); i += 1; }
        s.flush(&mut want);
        let mut got = Out::new();
        let r = {
            let mut fm = Formatter::new(&mut got, FormattingOptions::new());
            core::fmt::Display::fmt(&crate::staged::lossy_utf8::LossyUtf8Display(&d), &mut fm)
        };
        assert!(r.is_ok() && got.same(&want), "the text is the one of the specification machine");
    }
    harness!(b_display_2, { display::<2>() });
    harness!(b_display_3, { display::<3>() });
}
