; Lemmas over the specification functions the code is proved to implement.
;
; (at R lo B): the byte string B is found in R from position lo on.
(declare ISV (Bytes 64 64) Bool)   ; ... for the varint of a number
(ondemand (ISV R lo v) (isvdef R lo v))
(define (inb a) (and (s<= 0 a) (s< a 0x800000000000)))

; reading a varint gives the number that was written
(lemma varint.roundtrip (props C02 C03 C04) (vars (R Bytes) (lo 64) (v 64))
  (hyp (inb lo))
  (hyp (ISV R lo v))
  (unfold (ISV R lo v))
  (inst tpos.1 (R R) (lo lo)) (inst tpos.2 (R R) (lo lo))
  (inst part.0 (R R) (lo lo) (j lo))
  (splitn n (1 2 3 4 5 6 7 8 9 10) (= (vlen v) n)
     (for i 1 n (inst part.1 (R R) (lo lo) (j (+ lo (- i 1)))))
     (inst tpos.3 (R R) (lo lo) (j (+ lo (- n 1)))))
  (goal end (= (tpos R lo) (+ lo (- (vlen v) 1))))
  (goal value (= (part R lo (+ lo (vlen v))) v))
  (goal fits (=> (= (vlen v) 10) (u<= (bidx* R (+ lo 9)) (c8 1)))))

; the same value of a scalar, at a in h and at q in g
(define (SAME sid a h q g)
  (ite (= sid (c8 0)) (= (ld b h a) (ld b g q))
  (ite (is32 sid) (= (ld w h a) (ld w g q))
  (ite (= sid (c8 11)) (= (ld s h a) (ld s g q))
  (ite (= sid (c8 12)) (and (= (ld yc h a) (ld yc g q)) (not (ld yn g q)))
       (= (ld d h a) (ld d g q)))))))

(define (isscalar sid) (or (= sid (c8 0)) (= sid (c8 1)) (= sid (c8 2)) (= sid (c8 3)) (= sid (c8 5)) (= sid (c8 6)) (= sid (c8 7)) (= sid (c8 8)) (= sid (c8 11)) (= sid (c8 12))))
; reading the payload of a scalar restores the value that was written, and
; consumes exactly what was written
(lemma payload.roundtrip (props C02 C03 C04) (vars (R Bytes) (lo 64) (sid 8) (a 64) (h Heap) (q 64) (g Heap))
  (hyp (isscalar sid))
  (hyp (inb lo))
  (splitn s (0 1 2 3 5 6 7 8 11 12) (= sid (c8 s)))
  (let v (ite (= sid (c8 0)) (ite (ld b h a) 1 0)
         (ite (= sid (c8 1)) (sext64 (ld w h a))
         (ite (= sid (c8 2)) (ld d h a)
         (ite (= sid (c8 3)) (zext64 (ld w h a))
         (ite (= sid (c8 5)) (zz (sext64 (ld w h a)))
         (ite (= sid (c8 6)) (zz (ld d h a))
         (ite (= sid (c8 11)) (blen (ld s h a)) (blen (ld yc h a))))))))))
  (hyp (at R lo (PAY sid a h)))
  (use varint.roundtrip R lo v)
  (let c (bsl* R lo (+ lo (blen (PAY sid a h)))))
  (goal framed (FRW (scwt sid) c))
  (goal value (SAME sid a h q (PUT sid c q g))))

; one field occurrence the message knows: decoding goes on behind it with the
; memory its codec leaves
(lemma field.step (props C03 C04 C07 C12 C15) (vars (t GType) (R Bytes) (lo 64) (n2 64) (hi 64) (wt 64) (p 64) (h Heap))
  (hide part.0 part.1 tpos.2 tpos.3)
  (let n1 (+ lo (vlen wt)))
  (let fi (fidx t (>> wt 3)))
  (hyp (inb lo)) (hyp (inb hi)) (hyp (s<= n1 n2)) (hyp (s<= n2 hi))
  (hyp (ISV R lo wt))
  (hyp (/= fi 0))
  (hyp (= (f.wt fi) wt))
  (hyp (FRW (& wt 7) (bsl* R n1 n2)))
  (hyp (= (KDe (ck (f.codec fi)) (bsl* R n1 n2)) ENil))
  (use varint.roundtrip R lo wt)
  (unfold (MDe t R lo hi))
  (rw (tpos R lo) (+ lo (- (vlen wt) 1)))
  (rw (part R lo (+ lo (vlen wt))) wt)
  (unfold (MDH t R lo hi p h))
  (splitn w (0 1 2 5) (= (& wt 7) w))
  (goal errors (= (MDe t R lo hi) (MDe t R n2 hi)))
  (goal memory (= (MDH t R lo hi p h) (MDH t R n2 hi p (KDH (ck (f.codec fi)) (bsl* R n1 n2) (+ p (f.off fi)) h)))))

; one well-formed field occurrence the message does not know is skipped
(lemma unknown.step (props C07) (vars (t GType) (R Bytes) (lo 64) (n2 64) (hi 64) (wt 64) (p 64) (h Heap))
  (hide part.0 part.1 tpos.2 tpos.3)
  (let n1 (+ lo (vlen wt)))
  (hyp (inb lo)) (hyp (inb hi)) (hyp (s<= n1 n2)) (hyp (s<= n2 hi))
  (hyp (ISV R lo wt))
  (hyp (= (fidx t (>> wt 3)) 0))
  (hyp (FRW (& wt 7) (bsl* R n1 n2)))
  (use varint.roundtrip R lo wt)
  (unfold (MDe t R lo hi))
  (rw (tpos R lo) (+ lo (- (vlen wt) 1)))
  (rw (part R lo (+ lo (vlen wt))) wt)
  (unfold (MDH t R lo hi p h))
  (splitp w (0 1 2 5) (= (& wt 7) w))
  (goal errors (= (MDe t R lo hi) (MDe t R n2 hi)))
  (goal memory (= (MDH t R lo hi p h) (MDH t R n2 hi p h))))

; decoding a concatenation is decoding one part into what the other left
(lemma decode.concat (props C15 C04) (vars (t GType) (R Bytes) (lo 64) (mid 64) (hi 64) (p 64) (h Heap))
  (hide part.0 part.1 tpos.2 tpos.3)
  (hyp (inb lo)) (hyp (inb hi)) (hyp (s<= lo mid)) (hyp (s<= mid hi))
  (hyp (= (MDe t R lo mid) ENil))
  (measure (- mid lo))
  (unfold (MDe t R lo mid)) (unfold (MDe t R lo hi))
  (unfold (MDH t R lo mid p h)) (unfold (MDH t R lo hi p h))
  (split ((= lo mid)) ((s< lo mid)))
  (let n1 (+ lo (vn (bsl* R lo mid))))
  (let wt (vval (bsl* R lo mid)))
  (let fi (fidx t (>> wt 3)))
  (let v (bsl* R n1 mid))
  (splitn w (0 1 2 5 3 4 6 7) (= (& wt 7) w))
  (let n2 (ite (= (& wt 7) 0) (+ n1 (vn v)) (ite (= (& wt 7) 2) (+ (+ n1 (vn v)) (vval v)) (ite (= (& wt 7) 5) (+ n1 4) (+ n1 8)))))
  (let h2 (ite (= fi 0) h (KDH (ck (f.codec fi)) (bsl* R n1 n2) (+ p (f.off fi)) h)))
  (use decode.concat t R n2 mid hi p h2)
  (goal errors (= (MDe t R lo hi) (MDe t R mid hi)))
  (goal memory (= (MDH t R lo hi p h) (MDH t R mid hi p (MDH t R lo mid p h)))))

; the last occurrence of a singular scalar wins
(lemma scalar.last (props C15) (vars (sid 8) (fam 8) (c Bytes) (d Bytes) (p 64) (h Heap))
  (hyp (isscalar sid)) (hyp (u< fam (c8 3)))
  (splitn s (0 1 2 3 5 6 7 8 11 12) (= sid (c8 s)))
  (splitn f (0 1 2) (= fam (c8 f)))
  (goal last (= (KDH (KSc sid fam) d p (KDH (KSc sid fam) c p h)) (KDH (KSc sid fam) d p h))))

; A flat message type: its fields are scalars, strings, byte slices and
; Options of these, at separate addresses, each found under its own number.
; (flat t) stands for the conjunction of what the two axioms say for all i, j.
(declare flat (GType) Bool)
(declare fsid (GType 64) 8)
(declare ffam (GType 64) 8)
(axiom flat.field ((flat t) (fptr t i)) (=> (and (flat t) (s<= 0 i) (s< i (nf t)))
  (and (= (ck (f.codec (fptr t i))) (KSc (fsid t i) (ffam t i)))
       (isscalar (fsid t i)) (u< (ffam t i) (c8 3))
       (= (fidx t (>> (f.wt (fptr t i)) 3)) (fptr t i))
       (= (& (f.wt (fptr t i)) 7) (scwt (fsid t i))))))
(define (valat t i) (+ (f.off (fptr t i)) (ite (= (ffam t i) (c8 2)) (voff (fsid t i)) 0)))
(axiom flat.sep ((flat t) (fptr t i) (fptr t j)) (=> (and (flat t) (s<= 0 i) (s< i (nf t)) (s<= 0 j) (s< j (nf t)) (/= i j))
  (and (/= (f.off (fptr t i)) (f.off (fptr t j))) (/= (valat t i) (f.off (fptr t j)))
       (/= (f.off (fptr t i)) (valat t j)) (/= (valat t i) (valat t j)))))

; field j of the message at p in h and at q in g: the same value
(define (FSAME t j p h q g)
  (ite (= (ffam t j) (c8 2))
    (and (= (ld b h (+ p (f.off (fptr t j)))) (ld b g (+ q (f.off (fptr t j)))))
         (=> (ld b h (+ p (f.off (fptr t j)))) (SAME (fsid t j) (+ p (valat t j)) h (+ q (valat t j)) g)))
    (or (SAME (fsid t j) (+ p (f.off (fptr t j))) h (+ q (f.off (fptr t j))) g)
        (and (ZERO (fsid t j) (+ p (f.off (fptr t j))) h) (ZERO (fsid t j) (+ q (f.off (fptr t j))) g)))))
; field j of the message at q in g: as in a zero message
(define (FZERO t j q g)
  (ite (= (ffam t j) (c8 2)) (not (ld b g (+ q (f.off (fptr t j)))))
       (ZERO (fsid t j) (+ q (f.off (fptr t j))) g)))

; decoding the encoding of the first i fields of a flat message into a zero
; message restores them and leaves the others zero
(lemma flat.prefix (props C04) (vars (t GType) (R Bytes) (lo 64) (i 64) (j 64) (p 64) (h Heap) (q 64) (g Heap))
  (hide part.0 part.1 tpos.2 tpos.3)
  (hyp (flat t)) (hyp (s<= 0 i)) (hyp (s<= i (nf t))) (hyp (s<= 0 j)) (hyp (s< j (nf t)))
  (let m (+ lo (blen (PENC t p h i))))
  (hyp (inb lo)) (hyp (inb m))
  (hyp (at R lo (PENC t p h i)))
  (hyp (FZERO t j q g))
  (measure i)
  (split ((= i 0) (unfold (MDe t R lo lo)) (unfold (MDH t R lo lo q g)) (unfold (PENC t p h 0)))
         ((s< 0 i)
           (pred k i)
           (let mk (+ lo (blen (PENC t p h k))))
           (let fi (fptr t k))
           (inst flat.field (t t) (i k))
           (inst flat.field (t t) (i j))
           (inst flat.sep (t t) (i k) (j j))
           (inst PENC.len (t t) (p p) (h h) (i k))
           (splitn f (0 1 2) (= (ffam t k) (c8 f))
           (splitp s (0 1 2 3 5 6 7 8 11 12) (= (fsid t k) (c8 s))
             (rw (ck (f.codec fi)) (KSc (c8 s) (c8 f)))
             (rw (fidx t (>> (f.wt fi) 3)) fi)
             (let a (+ p (f.off fi)))
             (let F (KENC (KSc (c8 s) (c8 f)) a (f.wt fi) h))
             (as R lo (PENC t p h i) (cat (PENC t p h k) F))
             (use flat.prefix t R lo k j p h q g)
             (let gk (MDH t R lo mk q g))
             (have before (= (MDe t R lo mk) ENil))
             (let va (ite (= f 2) (+ a (voff (c8 s))) a))
             (let vq (ite (= f 2) (+ q (+ (f.off fi) (voff (c8 s)))) (+ q (f.off fi))))
             (use decode.concat t R lo mk m q g)
             (have split (= (MDe t R lo m) (MDe t R mk m)))
             (unfold (MDe t R m m)) (unfold (MDH t R m m q gk))
             (split ((= F eps) (unfold (MDe t R mk mk)) (unfold (MDH t R mk mk q gk)))
                    ((/= F eps)
                      (use varint.roundtrip R mk (f.wt fi))
                      (let n1 (+ mk (vlen (f.wt fi))))
                      (use payload.roundtrip R n1 (c8 s) va h vq gk)
                      (have framed (FRW (scwt (c8 s)) (bsl* R n1 m)))
                      (have value (SAME (c8 s) va h vq (PUT (c8 s) (bsl* R n1 m) vq gk)))
                      (use field.step t R mk m m (f.wt fi) q gk)
                      (unfold (MDH t R m m q (KDH (ck (f.codec fi)) (bsl* R n1 m) (+ q (f.off fi)) gk)))))))))
  (goal errors (= (MDe t R lo m) ENil))
  (goal fields (ite (s< j i) (FSAME t j p h q (MDH t R lo m q g)) (FZERO t j q (MDH t R lo m q g)))))
