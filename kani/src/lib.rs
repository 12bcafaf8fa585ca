//! Contracts of the floating-point functions, which Verus cannot reason about.
//! Every harness ranges over the whole input domain; the only loops are bounded by the
//! format (16 exponents) and are unrolled with unwinding assertions on, so each is a complete proof.
#[cfg(kani)]
mod proofs {
    use knx_ip_client::dp_types::*;

    fn no_text(_: std::fmt::Arguments<'_>) -> String {
        String::new()
    }
    /// mantissa and exponent of a 2-octet KNX float (sign and 11 bits of two's complement, 4 bits of exponent)
    fn split(w: u16) -> (i32, u32) {
        let m = (w & 0x7ff) as i32;
        (if w & 0x8000 != 0 { m - 2048 } else { m }, ((w >> 11) & 15) as u32)
    }
    fn hundredths(w: u16) -> i64 {
        let (m, e) = split(w);
        (m as i64) << e
    }
    fn word(b: &[u8]) -> u16 {
        (b[0] as u16) << 8 | b[1] as u16
    }

    /// C13: a received 2-octet float is 0.01 * mantissa * 2^exponent, to f32 precision
    #[kani::proof]
    #[kani::stub(alloc::fmt::format, no_text)]
    #[kani::unwind(18)]
    fn c13_float_decode() {
        let w: u16 = kani::any();
        let b = [(w >> 8) as u8, w as u8];
        let r = PdtKnxFloat::from_bytes(&b);
        match &r {
            Ok(x) => {
                let want = hundredths(w) as f64;
                let got = x.get_value() as f64 * 100.0;
                let d = got - want;
                let tol = want.abs() / 1048576.0;
                assert!(-tol <= d && d <= tol);
            }
            Err(_) => assert!(false),
        }
        std::mem::forget(r);
    }

    /// C13: a value is encoded as the nearest 2-octet float of the smallest exponent that holds it, saturating.
    /// The domain is split by sign and magnitude (bit patterns lo..=hi) so that the parts run in parallel.
    fn enc(neg: bool, lo: u32, hi: u32) {
        let bits: u32 = kani::any();
        kani::assume(lo <= bits && bits <= hi);
        let v = f32::from_bits(if neg { bits | 0x8000_0000 } else { bits });
        let x = PdtKnxFloat::general(v);
        assert!(x.get_value() == v);
        let b = x.get_bytes();
        assert!(b.len() == 2);
        let got = hundredths(word(&b)) as f64;
        let mut want = v as f64 * 100.0;
        if want < -67108864.0 {
            want = -67108864.0;
        }
        if want > 67076096.0 {
            want = 67076096.0;
        }
        // half a step
        let mut half = 0.5f64;
        let mut e = 0;
        while e < 15 && (want < -4096.0 * half || want > 4095.0 * half) {
            half = half + half;
            e += 1;
        }
        let slack = if want < 0.0 { -want } else { want } / 4194304.0 + 0.000001;
        let d = got - want;
        assert!(-(half + slack) <= d && d <= half + slack);
        std::mem::forget(b);
        std::mem::forget(x);
    }
    macro_rules! enc { ($($n:ident $neg:literal $lo:literal $hi:literal;)*) => { $(
        #[kani::proof]
        #[kani::unwind(18)]
        fn $n() { enc($neg, $lo, $hi); }
    )* } }
    // 0x41a00000 = 20.0, 0x44a00000 = 1280.0, 0x7f800000 = infinity
    enc! {
        c13_enc_p0 false 0 0x41a0_0000;
        c13_enc_p1 false 0x41a0_0001 0x44a0_0000;
        c13_enc_p2 false 0x44a0_0001 0x7f80_0000;
        c13_enc_n0 true 0 0x41a0_0000;
        c13_enc_n1 true 0x41a0_0001 0x44a0_0000;
        c13_enc_n2 true 0x44a0_0001 0x7f80_0000;
    }
    /// C03, C13: any number of octets is decoded or refused, exactly two are accepted
    #[kani::proof]
    #[kani::stub(alloc::fmt::format, no_text)]
    #[kani::unwind(18)]
    fn c03_float_from_bytes() {
        let b: [u8; 64] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= 64);
        let r = PdtKnxFloat::from_bytes(&b[..n]);
        assert!(r.is_ok() == (n == 2));
        let t = PdtKnxFloat::temp_from_bytes(&b[..n]);
        assert!(t.is_ok() == (n == 2));
        std::mem::forget(r);
        std::mem::forget(t);
    }
    /// C14
    #[kani::proof]
    #[kani::unwind(4)]
    fn c14_percent_encode() {
        let p: f32 = kani::any();
        kani::assume(!p.is_nan());
        let x = PdtKnxScaledValue::scaling(p);
        let b = x.get_bytes();
        assert!(b.len() == 1);
        let mut want = p as f64 * 2.55;
        if want < 0.0 {
            want = 0.0;
        }
        if want > 255.0 {
            want = 255.0;
        }
        let d = b[0] as f64 - want;
        assert!(d <= 0.5001 && d >= -0.5001);
        std::mem::forget(b);
        std::mem::forget(x);
    }
    /// C14: reading an octet as a percentage and writing that percentage gives the octet back
    #[kani::proof]
    #[kani::stub(alloc::fmt::format, no_text)]
    #[kani::unwind(8)]
    fn c14_percent_decode() {
        let v: u8 = kani::any();
        let r = PdtKnxScaledValue::from_bytes(&[v]);
        match &r {
            Ok(x) => {
                let p = PdtKnxScaledValue::get_value(x);
                let d = p as f64 * 2.55 - v as f64;
                assert!(d <= 0.001 && d >= -0.001);
            }
            Err(_) => assert!(false),
        }
        std::mem::forget(r);
    }
}
