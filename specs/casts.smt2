(set-logic QF_BVFP)
; u64 up to 2^53: to f64 (round to nearest even) and back (truncated) is the identity, and the result is in range
(declare-const x (_ BitVec 64))
(assert (bvule x #x0020000000000000))
(assert (not (= ((_ fp.to_ubv 64) RTZ ((_ to_fp_unsigned 11 53) RNE x)) x)))
(check-sat)
(reset)
(set-logic QF_BVFP)
; i64 of magnitude up to 2^53: to f64 (round to nearest even) and back (truncated) is the identity, and the result is in range
(declare-const x (_ BitVec 64))
(assert (and (bvsle x #x0020000000000000) (bvsge x (bvneg #x0020000000000000))))
(assert (not (= ((_ fp.to_sbv 64) RTZ ((_ to_fp 11 53) RNE x)) x)))
(check-sat)
(reset)
(set-logic QF_BVFP)
; every u32: to f64 (round to nearest even) and back (truncated) is the identity, and the result is in range
(declare-const x (_ BitVec 32))
(assert (not (= ((_ fp.to_ubv 32) RTZ ((_ to_fp_unsigned 11 53) RNE x)) x)))
(check-sat)
(reset)
(set-logic QF_BVFP)
; every i32: to f64 (round to nearest even) and back (truncated) is the identity, and the result is in range
(declare-const x (_ BitVec 32))
(assert (not (= ((_ fp.to_sbv 32) RTZ ((_ to_fp 11 53) RNE x)) x)))
(check-sat)
