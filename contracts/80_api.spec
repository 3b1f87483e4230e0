; The exported functions.
(declare itype (64) GType)      ; dynamic type of an interface value, <nil> if none
(declare iptr (64) 64)          ; its data pointer
(define (msgarg v) (and (= (tkind (itype v)) 22) (= (tkind (telem (itype v))) 25)))
(define (encoding v h) (ite (= (iptr v) 0) eps (MENC (telem (itype v)) (iptr v) h)))

(fn cachedStructInfoOf (params t) (props C12 C13) (safety C05 C13) (flag maypanic)
  (panics false)
  (requires struct (= (tkind t) 25))
  (info t))
(fn Size (params v) (props C01) (safety C01 C14) (flag mayreject)
  (requires message (msgarg v))
  (ensures size (C01 C14 C20 C11) (= r0 (blen (encoding v H)))))
(fn Marshal (params v) (props C01) (safety C14 C01) (flag mayreject private)
  (ensures rejects (C14) (=> (not (msgarg v)) (/= r1 ENil)))
  (ensures succeeds (C01 C14) (=> (msgarg v) (= r1 ENil)))
  (ensures bytes (C20 C02 C01 C04 C14) (=> (msgarg v) (= r0 (encoding v H)))))
(fn Unmarshal (params b v) (props C04) (safety C05 C14) (flag input anyheap mayreject)
  (let (ok (and (msgarg v) (/= (iptr v) 0))) (T (telem (itype v))))
  (ensures empty (C04 C15 C14) (=> (= (blen b) 0) (and (= r0 ENil) (= H1 H))))
  (ensures rejects (C14) (=> (and (/= (blen b) 0) (not ok)) (and (/= r0 ENil) (= H1 H))))
  (ensures result (C03 C04 C06 C07 C05) (=> (and (/= (blen b) 0) ok) (= r0 (MDe T (root b) (lo b) (hi b)))))
  (ensures message (C03 C04 C07 C08 C15) (=> (and (/= (blen b) 0) ok (= r0 ENil)) (= H1 (MDH T (root b) (lo b) (hi b) (iptr v) H)))))
