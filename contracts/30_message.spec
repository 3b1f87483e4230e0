; Messages: size and encoding are the fold of the fields' encodings.
;
; Invariant of published descriptors (established by the walker, see
; 60_walker.spec): every described field has a codec, and there are few.
(axiom inv.fptr ((fptr t i)) (/= (fptr t i) 0))
(axiom inv.codec ((f.codec (fptr t i))) (/= (f.codec (fptr t i)) 0))
(axiom inv.nf ((nf t)) (u< (nf t) 0x100000000))

(define (FENC t p h i) (KENC (ck (f.codec (fptr t i))) (+ p (f.off (fptr t i))) (f.wt (fptr t i)) h))
(ondemand (PENC t p h 0) eps)
(ondemand (PENC t p h (+1 i)) (ite (s<= 0 i) (cat (PENC t p h i) (FENC t p h i)) eps))
(axiom PENC.len0 ((blen (PENC t p h i))) (=> (= i 0) (= (blen (PENC t p h i)) 0)))
(axiom PENC.len ((blen (PENC t p h (+1 i)))) (=> (s<= 0 i)
   (= (blen (PENC t p h (+ i 1))) (+ (blen (PENC t p h i)) (blen (FENC t p h i))))))

(fn "(*structInfo).size" (params info p) (props C01 C11 C20) (safety C01)
  (requires descriptor (/= info 0))
  (loop (= ?n:w64 (blen (PENC (infotype info) p H ?i))) (s<= ?i (nf (infotype info))) (s<= (- 0 1) ?i)
        (= ?n:w64 (- (blen (MENC (infotype info) p H)) (blen (PENC (infotype info) p H ?i)))))
  (ret (ite (= p 0) 0 (blen (MENC (infotype info) p H)))))
(fn "(*structInfo).encode" (params info b p) (props C20 C02 C01 C11 C12) (safety C01 C02) (flag appends)
  (requires descriptor (/= info 0))
  (loop (= ?b:bytes (cat b (PENC (infotype info) p H ?i))))
  (ret (ite (= p 0) b (cat b (MENC (infotype info) p H)))))

; Decoding a window of the input, one field occurrence after the other.
(declare fidx (GType 64) 64)    ; descriptor of a field number, 0 if none
(axiom inv.fidx ((fidx t n)) (=> (/= (fidx t n) 0)
   (and (= (>> (f.wt (fidx t n)) 3) n) (/= (f.codec (fidx t n)) 0)
        (= (& (f.wt (fidx t n)) 7) (WT (ck (f.codec (fidx t n))))))))

(define (MD1 t R lo hi n1 num wt fi)
  (cond ((= fi 0) unknown
          (cond ((= wt 0) u (let ((v (bsl* R n1 hi)))
                   (cond ((vend v) trunc (EFe num wt (c8 1)))
                         ((vlong v) trunc (EFe num wt (c8 4)))
                         (else u (MDe t R (+ n1 (vn v)) hi)))))
                ((= wt 2) u (let ((v (bsl* R n1 hi)))
                   (cond ((vend v) trunc (EFe num wt (c8 1)))
                         ((vlong v) trunc (EFe num wt (c8 4)))
                         ((u< (- (blen v) (vn v)) (vval v)) trunc (EFe num wt (c8 1)))
                         (else u (MDe t R (+ (+ n1 (vn v)) (vval v)) hi)))))
                ((= wt 5) u (ite (s< hi (+ n1 4)) (EFe num wt (c8 1)) (MDe t R (+ n1 4) hi)))
                ((= wt 1) u (ite (s< hi (+ n1 8)) (EFe num wt (c8 1)) (MDe t R (+ n1 8) hi)))
                (else badwt (EFe num wt (c8 3)))))
        ((/= wt (& (f.wt fi) 7)) mismatch (EFe num wt (c8 4)))
        ((= wt 0) known (let ((v (bsl* R n1 hi)))
                   (cond ((vend v) trunc (EFe num wt (c8 1)))
                         ((vlong v) trunc (EFe num wt (c8 4)))
                         (else known (MD2 t R n1 (+ n1 (vn v)) hi num wt fi)))))
        ((= wt 2) known (let ((v (bsl* R n1 hi)))
                   (cond ((vend v) trunc (EFe num wt (c8 1)))
                         ((vlong v) trunc (EFe num wt (c8 4)))
                         ((u< (- (blen v) (vn v)) (vval v)) trunc (EFe num wt (c8 1)))
                         (else known (MD2 t R n1 (+ (+ n1 (vn v)) (vval v)) hi num wt fi)))))
        ((= wt 5) known (ite (s< hi (+ n1 4)) (EFe num wt (c8 1)) (MD2 t R n1 (+ n1 4) hi num wt fi)))
        ((= wt 1) known (ite (s< hi (+ n1 8)) (EFe num wt (c8 1)) (MD2 t R n1 (+ n1 8) hi num wt fi)))
        (else badwt (EFe num wt (c8 3)))))
(define (MD2 t R n1 n2 hi num wt fi)
  (let ((e (KDe (ck (f.codec fi)) (bsl* R n1 n2))))
    (ite (= e ENil) (MDe t R n2 hi) (EFe num wt (ecls e)))))
(ondemand (MDe t R lo hi)
  (let ((w (bsl* R lo hi)))
  (cond ((s<= hi lo) end ENil)
        ((vend w) trunc (EPlain (c8 1)))
        ((vlong w) trunc (EPlain (c8 4)))
        (else field (MD1 t R lo hi (+ lo (vn w)) (>> (vval w) 3) (& (vval w) 7) (fidx t (>> (vval w) 3)))))))

; memory after a successful decode
(define (MH1 t R n1 hi p h wt fi)
  (let ((v (bsl* R n1 hi)))
  (let ((n2 (ite (= wt 0) (+ n1 (vn v)) (ite (= wt 2) (+ (+ n1 (vn v)) (vval v)) (ite (= wt 5) (+ n1 4) (+ n1 8))))))
  (cond ((= fi 0) unknown (MDH t R n2 hi p h))
        (else known (MDH t R n2 hi p (KDH (ck (f.codec fi)) (bsl* R n1 n2) (+ p (f.off fi)) h)))))))
(ondemand (MDH t R lo hi p h)
  (let ((w (bsl* R lo hi)))
  (cond ((s<= hi lo) end h)
        (else field (MH1 t R (+ lo (vn w)) hi p h (& (vval w) 7) (fidx t (>> (vval w) 3)))))))

(fn "(*structInfo).decode" (params info b p) (props C03 C04 C06 C07 C15) (safety C05) (flag input)
  (hide part.0 part.1 tpos.2 tpos.3)
  (requires descriptor (/= info 0))
  (requires target (/= p 0))
  (loop (= (MDe (infotype info) (root b) (lo b) (hi b)) (MDe (infotype info) (root b) (+ (lo b) ?o) (hi b)))
        (= (MDH (infotype info) (root b) (lo b) (hi b) p H) (MDH (infotype info) (root b) (+ (lo b) ?o) (hi b) p ?h:heap))
        (= (MDe (infotype info) (root b) (lo b) (hi b)) (MDe (infotype info) (root b) ?x:lo (hi b)))
        (= (MDH (infotype info) (root b) (lo b) (hi b) p H) (MDH (infotype info) (root b) ?x:lo (hi b) p ?h:heap)))
  (ret _ (MDe (infotype info) (root b) (lo b) (hi b)))
  (okheap (MDH (infotype info) (root b) (lo b) (hi b) p H))
  (ensures within (C05) (and (s<= 0 r0) (s<= r0 (blen b))))
  (ensures complete (C03 C04 C05 C06 C07 C11 C15) (=> (= r1 ENil) (= r0 (blen b)))))
