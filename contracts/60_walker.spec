; Building codecs from types: what reflect says about a type, which kind of
; codec a type and a tag demand, and what the codec functions built at run
; time have to do.

(declare telem (GType) GType)
(declare tkey (GType) GType)
(declare tlay (GType) 64)       ; layout class of a value of the type
(declare klay (Kind) 64)        ; layout class of what a codec of the kind reads and writes
(declare lstride (64) 64)
(declare lalign (64) 64)
(declare rtype (GType) 64)
(declare newaddr (64 Heap) 64)  ; address of the next object allocated
(declare hzero (64 64 Heap) Heap)     ; memory with a zero value of layout a at an address
(declare newarr (64 64 Heap) 64)      ; address of the next array of n allocated
(declare hnewarr (64 64 Heap) Heap)
(declare hcopyn (64 64 64 64 Heap) Heap) ; layout, to, from, how many
(declare hmov (64 64 64 Heap) Heap)
(declare mkc (Kind 64) 64)
(declare mki (GType 64) 64)
(declare KOF (GType Bool Bool Bool) Kind)
(rule (infotype (mki t n)) t)

(group KIND C12 C02 C08)
(group RSIZE.KMsg C01 C11)
(group RENC.KMsg C11 C01 C18)
(group RDEC.KMsg C11 C15 C03)
(group RSIZE.KPtr C01 C08)
(group RENC.KPtr C08 C01 C18)
(group RDEC.KPtr C08 C03 C04 C15)

; layout classes
(rule (klay (KSc sid fam)) (scvlay sid))
(define (scvlay sid) (ite (= sid (c8 0)) 1 (ite (is32 sid) 4 (ite (= sid (c8 11)) 16 (ite (= sid (c8 12)) 24 8)))))
(rule (klay (KOF t z x r)) (tlay t))
(rule (klay (KPtr k)) 9)
(rule (klay (KMsg t)) 9)
(rule (klay (KSlice k)) 24)
(rule (klay (KMap a b c d e)) 9)
(axiom lstride.def ((lstride l)) (and
   (=> (= l 1) (= (lstride l) 1)) (=> (= l 4) (= (lstride l) 4)) (=> (= l 8) (= (lstride l) 8))
   (=> (= l 9) (= (lstride l) 8)) (=> (= l 16) (= (lstride l) 16)) (=> (= l 24) (= (lstride l) 24))
   (u< (lstride l) 0x100000000)))

; the kind a type demands: zigzag and fixed come from the tag, req: the value
; is written even if zero (elements, map entries, targets of pointers)
(define (fam r) (ite r (c8 1) (c8 0)))
(ondemand (KOF t z x r)
  (let ((k (tkind t)))
  (ite (= k 1) (KSc (c8 0) (fam r))
  (ite (= k 5) (ite z (KSc (c8 5) (fam r)) (ite x (KSc (c8 7) (fam r)) (KSc (c8 1) (fam r))))
  (ite (= k 6) (ite z (KSc (c8 6) (fam r)) (ite x (KSc (c8 8) (fam r)) (KSc (c8 2) (fam r))))
  (ite (= k 10) (ite x (KSc (c8 7) (fam r)) (KSc (c8 3) (fam r)))
  (ite (= k 11) (ite x (KSc (c8 8) (fam r)) (KSc (c8 2) (fam r)))
  (ite (= k 13) (KSc (c8 7) (fam r))
  (ite (= k 14) (KSc (c8 8) (fam r))
  (ite (= k 24) (KSc (c8 11) (fam r))
  (ite (and (= k 23) (= (tkind (telem t)) 8)) (KSc (c8 12) (fam r))
  (ite (= k 22) (ite (= (tkind (telem t)) 25) (KMsg (telem t)) (KPtr (KOF (telem t) z x true)))
       KBad))))))))))))

; pointers
(rule (KDe (KPtr k) c) (KDe k c))
(rule (KDH (KPtr k) c p h)
  (ite (= (ld p h p) 0)
    (let ((a (newaddr (klay k) h)))
      (KDH k c a (st p (hzero (klay k) a h) p a)))
    (KDH k c (ld p h p) h)))
(rule (KDe (KMsg t) c) (MDe t (root c) (+ (lo c) (vn c)) (hi c)))
(rule (KDH (KMsg t) c p h)
  (ite (= (ld p h p) 0)
    (let ((a (newaddr (tlay t) h)))
      (MDH t (root c) (+ (lo c) (vn c)) (hi c) a (st p (hzero (tlay t) a h) p a)))
    (MDH t (root c) (+ (lo c) (vn c)) (hi c) (ld p h p) h)))

(fn "(*walker).structInfo" (params w t) (props C12) (flag maypanic invonly)
  (requires type (/= t (gtc <nil>)))
  (requires walker (/= w 0))
  (loop (s<= ?i (tnf t)) (= ?l:list (DLIST t ?i)) (= ?m:imap (MI t ?i)))
  (info t)
  (ensures struct (C12) (= (tkind t) 25)))
(fn "(*walker).structCodec" (params w t) (props C11) (flag maypanic)
  (requires walker (/= w 0))
  (requires type (or (= (tkind t) 22) (= (tkind t) 25)))
  (codec (ite (= (tkind t) 22) (KMsg (telem t)) KBad)))
(fn "(*walker).pointer" (params w t conf) (props C08) (flag maypanic)
  (requires walker (/= w 0))
  (requires conf (/= conf 0))
  (requires type (= (tkind t) 22))
  (codec (KOF t conf.zigzag conf.fixed true)))
(fn "(*walker).codec" (params w t conf) (props C12) (flag maypanic)
  (requires type (/= t (gtc <nil>)))
  (requires walker (/= w 0))
  (requires conf (/= conf 0))
  (codec (KOF t conf.zigzag conf.fixed conf.required)))
(fn "(*walker).required" (params w t conf) (props C12) (flag maypanic)
  (requires type (/= t (gtc <nil>)))
  (requires walker (/= w 0))
  (requires conf (/= conf 0))
  (codec (KOF t conf.zigzag conf.fixed true)))

; slices: the elements in order
(declare SENC (Kind 64 64 Heap 64) Bytes)
(define (elem k p h i) (+ (ld p h p) (* i (lstride (klay k)))))
(ondemand (SENC k p wt h 0) eps)
(ondemand (SENC k p wt h (+1 i)) (ite (s<= 0 i) (cat (SENC k p wt h i) (KENC k (elem k p h i) wt h)) eps))
(axiom SENC.len0 ((blen (SENC k p wt h i))) (=> (= i 0) (= (blen (SENC k p wt h i)) 0)))
(axiom SENC.len ((blen (SENC k p wt h (+1 i)))) (=> (s<= 0 i)
   (= (blen (SENC k p wt h (+ i 1))) (+ (blen (SENC k p wt h i)) (blen (KENC k (elem k p h i) wt h))))))
(rule (KENC (KSlice k) p wt h) (SENC k p wt h (ld d h (+ p 8))))
(rule (KDe (KSlice k) c) (KDe k c))
(group RSIZE.KSlice C01 C09)
(group RENC.KSlice C09 C02 C20)
(group RDEC.KSlice C09 C15 C03)
(kind KSlice
  (assume (and (s<= 0 (ld d H (+ p 8))) (s<= (ld d H (+ p 8)) (ld d H (+ p 16))) (s< (ld d H (+ p 16)) 0x1000000000000)
               (=> (s< 0 (ld d H (+ p 16))) (/= (ld p H p) 0))))
  (loop size (s<= ?i (ld d H (+ p 8))) (= ?n:w64 (blen (SENC K0 p wt H ?i))) (s<= (- 0 1) ?i)
    (= ?n:w64 (- (blen (SENC K0 p wt H (ld d H (+ p 8)))) (blen (SENC K0 p wt H ?i)))))
  (loop encode (s<= ?i (ld d H (+ p 8))) (= ?b:bytes (cat b (SENC K0 p wt H ?i))))
  (separate p (+ p 8) (+ p 16)))
(fn "sliceCodecOf" (params t c w) (props C09)
  (requires type (= (tkind t) 23))
  (requires codec (/= c 0))
  (requires layout (= (tlay (telem t)) (klay (ck c))))
  (codec (KSlice (ck c))))

(define (isfx w) (or (= (& w 7) 5) (= (& w 7) 1)))
(declare norm (Kind) Kind)      ; kinds that decode alike
(rule (norm (KSc s f)) (KSc s (ite (= f (c8 2)) f (c8 1))))
(rule (norm (KOF t z x r)) (KOF t z x true))
(rule (norm (KPtr k)) (KPtr k))
(rule (norm (KMsg t)) (KMsg t))
(rule (norm (KSlice k)) (KSlice k))
(rule (norm KBad) KBad)

; the kind a field of a message demands
(declare FK (GType 64) Kind)
(define (isopt ft) (and (= (tkind ft) 25) (or (= ft (gtc "proto.Option[bool]")) (= ft (gtc "proto.Option[int32]")) (= ft (gtc "proto.Option[int64]")) (= ft (gtc "proto.Option[uint32]"))
   (= ft (gtc "proto.Option[uint64]")) (= ft (gtc "proto.Option[float32]")) (= ft (gtc "proto.Option[float64]")) (= ft (gtc "proto.Option[string]")))))
(define (optkind ft wt z)
  (let ((o (c8 2)))
  (ite (= ft (gtc "proto.Option[bool]")) (KSc (c8 0) o)
  (ite (= ft (gtc "proto.Option[int32]")) (ite (= wt 5) (KSc (c8 7) o) (ite z (KSc (c8 5) o) (KSc (c8 1) o)))
  (ite (= ft (gtc "proto.Option[int64]")) (ite (= wt 1) (KSc (c8 8) o) (ite z (KSc (c8 6) o) (KSc (c8 2) o)))
  (ite (= ft (gtc "proto.Option[uint32]")) (ite (= wt 5) (KSc (c8 7) o) (KSc (c8 3) o))
  (ite (= ft (gtc "proto.Option[uint64]")) (ite (= wt 1) (KSc (c8 8) o) (KSc (c8 2) o))
  (ite (= ft (gtc "proto.Option[string]")) (KSc (c8 11) o)
  (ite (and (= ft (gtc "proto.Option[float32]")) (= wt 5)) (KSc (c8 7) o)
  (ite (and (= ft (gtc "proto.Option[float64]")) (= wt 1)) (KSc (c8 8) o)
       KBad))))))))))
(define (tkf t z w) (KOF t z (isfx w) true))
(ondemand (FK t j)
  (let ((ft (tftype t j)) (g (tag t j)))
  (ite (isopt ft) (optkind ft (tgwt g) (tgzz g))
  (ite (and (= (tkind ft) 23) (/= (tkind (telem ft)) 8)) (KSlice (KOF (telem ft) (tgzz g) (isfx (tgwt g)) true))
  (ite (= (tkind ft) 21)
     (let ((gk (tlook (tftag t j) "protobuf_key")) (gv (tlook (tftag t j) "protobuf_val")))
       (KMap (KOF (tkey ft) (tgzz gk) (isfx (tgwt gk)) true) (KOF (telem ft) (tgzz gv) (isfx (tgwt gv)) true) (tgw gk) (tgw gv) (tgw g)))
     (KOF ft (tgzz g) (isfx (tgwt g)) false))))))

; maps: one entry message per key, in the order the runtime iterates
(declare mapn (64 Heap) 64)
(declare mapk (64 Heap 64) 64)
(declare mapv (64 Heap 64) 64)
(declare MAPE (Kind Kind 64 64 64 64 Heap 64) Bytes)
(define (entry mk mv wk wv m h i) (cat (KENC mk (mapk m h i) wk h) (KENC mv (mapv m h i) wv h)))
(ondemand (MAPE mk mv wk wv w0 m h 0) eps)
(ondemand (MAPE mk mv wk wv w0 m h (+1 i)) (ite (s<= 0 i)
   (cat (MAPE mk mv wk wv w0 m h i) (encv w0) (encv (blen (entry mk mv wk wv m h i))) (entry mk mv wk wv m h i)) eps))
(axiom MAPE.len0 ((blen (MAPE mk mv wk wv w0 m h 0))) (= (blen (MAPE mk mv wk wv w0 m h 0)) 0))
(axiom MAPE.len ((blen (MAPE mk mv wk wv w0 m h (+1 i)))) (=> (s<= 0 i)
   (= (blen (MAPE mk mv wk wv w0 m h (+ i 1)))
      (+ (blen (MAPE mk mv wk wv w0 m h i)) (blen (cat (encv w0) (encv (blen (entry mk mv wk wv m h i))) (entry mk mv wk wv m h i)))))))
(rule (KENC (KMap mk mv wk wv w0) p wt h) (MAPE mk mv wk wv w0 (ld p h p) h (mapn (ld p h p) h)))
(group RSIZE.KMap C01 C10)
(group RENC.KMap C10 C02 C20)
(group RDEC.KMap C10 C15 C03)
(kind KMap
  (loop size (s<= ?i (mapn (ld p H p) H)) (= ?n:w64 (blen (MAPE K0 K1 K2 K3 K4 (ld p H p) H ?i))))
  (loop encode (s<= ?i (mapn (ld p H p) H)) (= ?b:bytes (cat b (MAPE K0 K1 K2 K3 K4 (ld p H p) H ?i))))
  (separate p))
(define (okwire w) (or (= (& w 7) 0) (= (& w 7) 1) (= (& w 7) 2) (= (& w 7) 5)))
(define (okkind k t wt zz) (and (/= k KBad) (= k (KOF t zz (isfx wt) true)) (okwire wt) (=> zz (= (& wt 7) 0))))
(fn "(*walker).mapCodec" (params w t f) (props C10) (flag maypanic) (retains f)
  (requires type (= (tkind t) 21))
  (requires walker (/= w 0))
  (requires field (and (/= f 0) (/= f.keyField 0) (/= f.valField 0) (/= f.keyField.codec 0) (/= f.valField.codec 0)))
  (requires key (okkind (ck f.keyField.codec) (tkey t) f.keyField.wiretag f.keyZigzag))
  (requires value (okkind (ck f.valField.codec) (telem t) f.valField.wiretag f.valZigzag))
  (codec (KMap (ck f.keyField.codec) (ck f.valField.codec) f.keyField.wiretag f.valField.wiretag f.wiretag)))
