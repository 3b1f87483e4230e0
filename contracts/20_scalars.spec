; Varint, zigzag and fixed-width primitives.

(fn appendVarint (params b v) (props ENC) (safety C01 C02) (flag appends)
  (ret (cat b (encv v))))
(fn encodeZigZag64 (params v) (props ENC) (ret (zz v)))
(fn decodeZigZag64 (params v) (props DEC) (safety SAFE) (ret (unzz v)))
(fn encodeLE32 (params b v) (props ENC) (flag appends) (ret (cat b (le v))))
(fn encodeLE64 (params b v) (props ENC) (flag appends) (ret (cat b (le v))))
(fn sizeOfVarint (params v) (props SIZE C02) (safety C01) (ret (vlen v)))
(fn sizeOfVarlen (params n) (props SIZE C02) (safety C01) (ret (+ (vlen n) n)))

(fn decodeVarint (params b) (props DEC) (safety SAFE) (flag input)
  (loop
    (= ?x:w64 (part (root b) (lo b) (+ (lo b) ?i)))
    (= ?x:w64 (part (root b) (lo b) ?i))
    (s<= (+ (lo b) ?i) (vT b))
    (s<= ?i (vT b)))
  (ret _ _ _)
  (ensures value (C03 C04 C15) (=> (vok b) (= r0 (vval b))))
  (ensures accepts (C03 C04 C06 C15) (=> (vok b) (= r2 ENil)))
  (ensures consumed (C03 C05 C07 C15) (=> (vok b) (= r1 (vn b))))
  (ensures within (C05) (and (s<= 0 r1) (s<= r1 (blen b))))
  (ensures truncated (C06 C15) (=> (vend b) (and (= r2 (EPlain (c8 1))) (= r1 (blen b)))))
  (ensures overflow (C03 C06) (=> (and (not (vend b)) (vlong b)) (= r2 (EPlain (c8 4))))))

(fn decodeVarintZigZag (params b) (props DEC) (safety SAFE) (flag input)
  (ret _ _ _)
  (ensures value (C03) (=> (vok b) (= r0 (unzz (vval b)))))
  (ensures accepts (C03) (=> (vok b) (and (= r2 ENil) (= r1 (vn b))))))

(fn decodeLE32 (params b) (props DEC) (safety SAFE) (flag input)
  (ret _ _ _)
  (ensures value (C03 C04) (=> (s<= 4 (blen b)) (and (= r0 (le4 b)) (= r1 4) (= r2 ENil))))
  (ensures truncated (C06) (=> (s< (blen b) 4) (and (= (ecls r2) (c8 1)) (s<= 0 r1) (s<= r1 (blen b))))))
(fn decodeLE64 (params b) (props DEC) (safety SAFE) (flag input)
  (ret _ _ _)
  (ensures value (C03 C04) (=> (s<= 8 (blen b)) (and (= r0 (le8 b)) (= r1 8) (= r2 ENil))))
  (ensures truncated (C06) (=> (s< (blen b) 8) (and (= (ecls r2) (c8 1)) (s<= 0 r1) (s<= r1 (blen b))))))

(fn decodeTag (params b) (props C03 C06 C07 C15) (safety SAFE) (flag input)
  (ret _ _ _ _)
  (ensures number (C06 C07 C15 C12) (=> (vok b) (= r0 (>> (vval b) 3))))
  (ensures wiretype (C06 C07 C15) (=> (vok b) (= r1 (& (vval b) 7))))
  (ensures accepts (C03 C06 C07) (=> (vok b) (and (= r3 ENil) (= r2 (vn b)))))
  (ensures within (C05) (and (s<= 0 r2) (s<= r2 (blen b))))
  (ensures truncated (C06 C15) (=> (vend b) (and (= r3 (EPlain (c8 1))) (= r2 (blen b)))))
  (ensures overflow (C03 C06) (=> (and (not (vend b)) (vlong b)) (= r3 (EPlain (c8 4))))))

(fn decodeVarlen (params b) (props C03 C05 C06) (safety SAFE) (flag input aliases)
  (ret _ _ _)
  (ensures value (C03 C04 C11) (=> (and (vok b) (u<= (vval b) (- (blen b) (vn b))))
      (and (= r0 (bsl b (vn b) (+ (vn b) (vval b)))) (= r2 ENil) (= r1 (+ (vn b) (vval b))))))
  (ensures within (C05) (and (s<= 0 r1) (s<= r1 (blen b))))
  (ensures truncated (C06) (=> (and (vok b) (u< (- (blen b) (vn b)) (vval b))) (= r2 (EPlain (c8 1)))))
  (ensures cut (C06) (=> (vend b) (= r2 (EPlain (c8 1)))))
  (ensures overflow (C03 C06) (=> (and (not (vend b)) (vlong b)) (= r2 (EPlain (c8 4))))))

(fn appendTag (params b f t) (props ENC) (flag appends)
  (ret (cat b (encv (| (<< f 3) t)))))
(fn appendVarintZigZag (params b v) (props ENC) (flag appends)
  (ret (cat b (encv (zz v)))))
